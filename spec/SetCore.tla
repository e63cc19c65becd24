------------------------------ MODULE SetCore ------------------------------
(***************************************************************************)
(* An evented set: content, results and errors of a built-in set, and one  *)
(* announcement, with exactly the difference, of every operation that      *)
(* changes the content.  Items are given by their class of equal objects.  *)
(*                                                                         *)
(* The content is a sequence: for the ordered variants in insertion order, *)
(* for the others in any (they are compared as sets).                      *)
(***************************************************************************)
EXTENDS PySeq

Rej(why) == [ok |-> FALSE, why |-> why]
Ok(st) == [ok |-> TRUE, st |-> st]
Check(cond, why, st) == IF cond THEN Ok(st) ELSE Rej(why)

Nothing == <<"none", "">>
R(k, v) == <<k, v>>
Done(q, res) == [r |-> "ok", res |-> res, after |-> q, or |-> q]
Err(q, name) == [r |-> name, res |-> Nothing, after |-> q, or |-> q]

InitSt(hdr) == [q |-> <<>>, ordered |-> hdr.ordered]

In(q, v) == v \in Range(q)
AddTo(q, v) == IF In(q, v) THEN q ELSE Append(q, v)
DropFrom(q, v) == SelectSeq(q, LAMBDA y : y # v)
Only(q, S) == SelectSeq(q, LAMBDA y : y \in S)
Without(q, S) == SelectSeq(q, LAMBDA y : y \notin S)

(* an iterable argument is the sequence of what it yields; it may end with a failure:
   <<"!", error>> (what it yields is hashable, or the item "[]" that is not) *)
Fails(a) == a # <<>> /\ (Last(a)[1] = "!" \/ \E i \in DOMAIN a : a[i][1] = "[]")
FailErr(a) ==
  LET m == {i \in DOMAIN a : a[i][1] \in {"!", "[]"}}
      i == CHOOSE i \in m : \A j \in m : i <= j
  IN IF a[i][1] = "!" THEN a[i][2] ELSE "TypeError"
Yields(a) ==
  LET m == {i \in DOMAIN a : a[i][1] \in {"!", "[]"}}
      n == IF m = {} THEN Len(a) ELSE (CHOOSE i \in m : \A j \in m : i <= j) - 1
  IN [i \in 1..n |-> a[i][1]]

RECURSIVE AddAll(_, _)
AddAll(q, vs) == IF vs = <<>> THEN q ELSE AddAll(AddTo(q, Head(vs)), Tail(vs))
Distinct(vs) == AddAll(<<>>, vs)

(* the arguments up to and including the first that fails *)
RECURSIVE UpToFail(_)
UpToFail(args) ==
  IF args = <<>> THEN <<>>
  ELSE IF Fails(Head(args)) THEN <<Head(args)>> ELSE <<Head(args)>> \o UpToFail(Tail(args))
AnyFails(args) == \E i \in DOMAIN args : Fails(args[i])
FirstErr(args) == FailErr(Last(UpToFail(args)))
RECURSIVE Flat(_)
Flat(args) == IF args = <<>> THEN <<>> ELSE Yields(Head(args)) \o Flat(Tail(args))
Common(args, S) == {v \in S : \A i \in DOMAIN args : v \in Range(Yields(args[i]))}

Union2(q, args) == AddAll(q, Flat(args))
Sym(q, o) == Without(q, Range(o)) \o Without(Distinct(o), Range(q))

(* an intersection need not read an iterable further than to the last common item *)
RECURSIVE MustFail(_, _)
MustFail(args, S) ==
  IF args = <<>> THEN FALSE
  ELSE LET Y == Range(Yields(Head(args))) IN
       (Fails(Head(args)) /\ ~(S \subseteq Y)) \/ MustFail(Tail(args), S \cap Y)

(* a failing operation leaves the content as a set would, or as it was *)
FailUpd(q, r, err) == [r |-> err, res |-> Nothing, after |-> r, or |-> q]

(***************************************************************************)
(* Outcome of an operation: `after` (or `or`) is the content afterwards    *)
(***************************************************************************)
Sem(st, e) ==
  LET q == st.q
      S == Range(q) IN
  IF e.op \in {"add", "discard", "remove", "contains"} /\ e.v = "[]" THEN Err(q, "TypeError")
  ELSE
  CASE e.op = "add" -> Done(AddTo(q, e.v), Nothing)
    [] e.op = "discard" -> Done(DropFrom(q, e.v), Nothing)
    [] e.op = "remove" -> IF In(q, e.v) THEN Done(DropFrom(q, e.v), Nothing) ELSE Err(q, "KeyError")
    [] e.op = "pop" ->
         IF q = <<>> THEN Err(q, "KeyError")
         ELSE IF e.r = "ok" /\ e.res[1] = "t" /\ In(q, e.res[2]) THEN Done(DropFrom(q, e.res[2]), e.res)
         ELSE Done(q, R("t", "an element"))
    [] e.op = "clear" -> Done(<<>>, Nothing)
    [] e.op = "contains" -> Done(q, R("b", In(q, e.v)))
    [] e.op = "len" -> Done(q, R("i", Len(q)))
    [] e.op = "bool" -> Done(q, R("b", q # <<>>))
    [] e.op = "iter" -> Done(q, R("s", q))
    [] e.op = "copy" -> Done(q, R("s", q))
    [] e.op = "hash" -> Err(q, "TypeError")
    [] e.op = "update" ->
         IF AnyFails(e.args) THEN FailUpd(q, Union2(q, UpToFail(e.args)), FirstErr(e.args))
         ELSE Done(Union2(q, e.args), Nothing)
    [] e.op = "difference_update" ->
         IF AnyFails(e.args) THEN FailUpd(q, Without(q, Range(Flat(UpToFail(e.args)))), FirstErr(e.args))
         ELSE Done(Without(q, Range(Flat(e.args))), Nothing)
    [] e.op = "intersection_update" ->
         IF AnyFails(e.args) /\ (e.r # "ok" \/ MustFail(e.args, S)) THEN Err(q, FirstErr(e.args))
         ELSE Done(Only(q, Common(e.args, S)), Nothing)
    [] e.op = "symmetric_difference_update" ->
         IF AnyFails(e.args) THEN Err(q, FirstErr(e.args)) ELSE Done(Sym(q, Flat(e.args)), Nothing)
    [] e.op = "union" -> IF AnyFails(e.args) THEN Err(q, FirstErr(e.args)) ELSE Done(q, R("s", Union2(q, e.args)))
    [] e.op = "difference" -> IF AnyFails(e.args) THEN Err(q, FirstErr(e.args)) ELSE Done(q, R("s", Without(q, Range(Flat(e.args)))))
    [] e.op = "intersection" -> IF AnyFails(e.args) /\ (e.r # "ok" \/ MustFail(e.args, S)) THEN Err(q, FirstErr(e.args)) ELSE Done(q, R("s", Only(q, Common(e.args, S))))
    [] e.op = "symmetric_difference" -> IF AnyFails(e.args) THEN Err(q, FirstErr(e.args)) ELSE Done(q, R("s", Sym(q, Flat(e.args))))
    [] e.op = "or" -> Done(q, R("s", Union2(q, e.args)))
    [] e.op = "and" -> Done(q, R("u", Only(q, Common(e.args, S))))
    [] e.op = "sub" -> Done(q, R("s", Without(q, Range(Flat(e.args)))))
    [] e.op = "xor" -> Done(q, R("u", Sym(q, Flat(e.args))))
    [] e.op = "ror" -> Done(q, R("u", Union2(q, e.args)))
    [] e.op = "rand" -> Done(q, R("u", Only(q, Common(e.args, S))))
    [] e.op = "rsub" -> Done(q, R("u", Without(Distinct(Flat(e.args)), S)))
    [] e.op = "rxor" -> Done(q, R("u", Sym(q, Flat(e.args))))
    [] e.op = "ior" -> Done(Union2(q, e.args), Nothing)
    [] e.op = "iand" -> Done(Only(q, Common(e.args, S)), Nothing)
    [] e.op = "isub" -> Done(Without(q, Range(Flat(e.args))), Nothing)
    [] e.op = "ixor" -> Done(Sym(q, Flat(e.args)), Nothing)
    [] e.op = "noniter" -> Err(q, "TypeError")
    [] e.op = "issubset" -> IF AnyFails(e.args) THEN Err(q, FirstErr(e.args)) ELSE Done(q, R("b", S \subseteq Range(Flat(e.args))))
    [] e.op = "issuperset" -> Done(q, R("b", Range(Flat(e.args)) \subseteq S))
    [] e.op = "isdisjoint" -> Done(q, R("b", Range(Flat(e.args)) \cap S = {}))
    [] e.op = "eq" -> Done(q, R("b", e.how # "noset" /\ Range(Flat(e.args)) = S))
    [] e.op = "le" -> IF e.how = "noset" THEN Err(q, "TypeError") ELSE Done(q, R("b", S \subseteq Range(Flat(e.args))))
    [] e.op = "lt" -> IF e.how = "noset" THEN Err(q, "TypeError") ELSE Done(q, R("b", S \subseteq Range(Flat(e.args)) /\ Range(Flat(e.args)) # S))
    [] e.op = "ge" -> IF e.how = "noset" THEN Err(q, "TypeError") ELSE Done(q, R("b", Range(Flat(e.args)) \subseteq S))
    [] e.op = "gt" -> IF e.how = "noset" THEN Err(q, "TypeError") ELSE Done(q, R("b", Range(Flat(e.args)) \subseteq S /\ Range(Flat(e.args)) # S))

(* the same content: in order, for the ordered variants *)
SameContent(ordered, a, b) == Len(a) = Len(b) /\ (IF ordered THEN a = b ELSE Range(a) = Range(b))
SameRes(st, want, got) ==
  IF want[1] \in {"s", "u"}
  THEN /\ got[1] = "s"
       /\ SameContent(st.ordered /\ want[1] = "s", want[2], got[2])
  ELSE want = got

(* the announcements x of a change of the content from q to p *)
Announced(st, q, p, x) ==
  IF Range(q) = Range(p)
  THEN IF x = <<>> THEN "" ELSE "an operation that changes nothing announced a change"
  ELSE IF Len(x) = 0 THEN "a change of the content was not announced"
  ELSE IF Len(x) > 1 THEN "a change of the content was announced more than once"
  ELSE IF Len(x[1].add) # Cardinality(Range(x[1].add)) \/ Range(x[1].add) # Range(p) \ Range(q)
       THEN "the announced additions are not what was added"
  ELSE IF Len(x[1].rem) # Cardinality(Range(x[1].rem)) \/ Range(x[1].rem) # Range(q) \ Range(p)
       THEN "the announced removals are not what was removed"
  ELSE IF ~SameContent(st.ordered, x[1].c, p) THEN "the change was announced when the new content was not in place"
  ELSE ""

(* a listener raised when a change was announced: the change has been made, completely,
   and was announced once; the caller gets the error *)
DoBoom(st, e) ==
  LET took == IF Len(e.x) = 1 THEN (IF Len(e.x[1].rem) = 1 THEN e.x[1].rem[1] ELSE "?") ELSE "?"
      s == Sem(st, [e EXCEPT !.r = "ok", !.res = IF e.op = "pop" THEN R("t", took) ELSE @])
      w == Announced(st, st.q, e.after, e.x) IN
  IF e.r # "EmitLoopError" THEN Rej("the error of a listener was not reported (" \o e.op \o ")")
  ELSE IF ~SameContent(st.ordered, e.after, s.after) /\ ~SameContent(st.ordered, e.after, s.or)
  THEN Rej("the content after a listener had raised differs from that of a set (" \o e.op \o ")")
  ELSE IF w # "" THEN Rej(w \o " (a listener raised; " \o e.op \o ")")
  ELSE IF e.x = <<>> THEN Rej("the announcement that failed did not reach the listeners before")
  ELSE IF e.g # Len(e.x) THEN Rej("the group of events did not announce what its members announced")
  ELSE Ok([st EXCEPT !.q = e.after])

DoOp(st, e) ==
  IF "boom" \in DOMAIN e THEN DoBoom(st, e) ELSE
  LET s == Sem(st, e) IN
  IF e.r # s.r
  THEN Rej(IF s.r = "ok" THEN "an operation raised that does not raise for a set (" \o e.op \o ")"
           ELSE "an operation did not raise the error of a set (" \o e.op \o ")")
  ELSE IF ~SameRes(st, s.res, e.res) THEN Rej("the result differs from that of a set (" \o e.op \o ")")
  ELSE IF ~SameContent(st.ordered, e.after, s.after) /\ ~SameContent(st.ordered, e.after, s.or)
  THEN Rej("the content afterwards differs from that of a set (" \o e.op \o ")")
  ELSE LET w == Announced(st, st.q, e.after, e.x) IN
  IF w # "" THEN Rej(w \o " (" \o e.op \o ")")
  ELSE IF e.g # Len(e.x) THEN Rej("the group of events did not announce what its members announced")
  ELSE Ok([st EXCEPT !.q = e.after])

DoNew(st, e) ==
  LET w == Distinct(Yields(e.arg)) IN
  Check(SameContent(st.ordered, w, e.after), "a new set has the wrong content", [st EXCEPT !.q = e.after])

Step(st, e) ==
  CASE e.k = "op" -> DoOp(st, e)
    [] e.k = "new" -> DoNew(st, e)
    [] e.k = "end" -> Ok(st)
    [] e.k = "unexpected" -> Rej("unexpected: " \o e.msg)
    [] OTHER -> Rej("unknown event " \o e.k)
=============================================================================
