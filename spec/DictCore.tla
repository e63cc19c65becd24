------------------------------ MODULE DictCore ------------------------------
(***************************************************************************)
(* An evented dict: content, results and errors of a built-in dict, plus   *)
(* the announcements of every key added, replaced or removed.              *)
(*                                                                         *)
(* The content is a sequence of <<key, value>> (insertion order).  Keys    *)
(* and values are tokens (identities); st.eq maps a token to its class of  *)
(* equal ones.  A key stays the object it was when it was first inserted.  *)
(***************************************************************************)
EXTENDS PySeq

Rej(why) == [ok |-> FALSE, why |-> why]
Ok(st) == [ok |-> TRUE, st |-> st]
Check(cond, why, st) == IF cond THEN Ok(st) ELSE Rej(why)

Nothing == <<"none", "">>
R(k, v) == <<k, v>>
Done(q, res) == [r |-> "ok", res |-> res, after |-> q]
Err(q, name) == [r |-> name, res |-> Nothing, after |-> q]

InitSt(hdr) == [q |-> <<>>, eq |-> hdr.eq, bad |-> hdr.bad, unhash |-> hdr.unhash]

Same(st, a, b) == st.eq[a] = st.eq[b]
Where(st, q, k) ==  (* 1-based position of a key, 0 if it is not there *)
  LET m == {i \in DOMAIN q : Same(st, q[i][1], k)} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE
Has(st, q, k) == Where(st, q, k) # 0
Val(st, q, k) == q[Where(st, q, k)][2]
Bad(st, v) == v \in Range(st.bad)
Unhash(st, k) == k \in Range(st.unhash)
PutKey(st, q, k, v) ==
  LET i == Where(st, q, k) IN IF i = 0 THEN Append(q, <<k, v>>) ELSE [q EXCEPT ![i] = <<@[1], v>>]
DelKey(st, q, k) == RemoveAt(q, Where(st, q, k))
Keys(q) == [i \in DOMAIN q |-> q[i][1]]
Values(q) == [i \in DOMAIN q |-> q[i][2]]

(* assign pairs one after the other, up to the first that cannot be *)
RECURSIVE PutAll(_, _, _)
PutAll(st, q, ps) ==
  IF ps = <<>> THEN Done(q, Nothing)
  ELSE LET p == Head(ps) IN
       IF p[1] = "!" THEN Err(q, p[2])  (* the iterable fails here *)
       ELSE IF Unhash(st, p[1]) THEN Err(q, "TypeError")
       ELSE IF Bad(st, p[2]) THEN Err(q, "TypeError")
       ELSE PutAll(st, PutKey(st, q, p[1], p[2]), Tail(ps))

SameItems(st, q, p) ==
  /\ Len(q) = Len(p)
  /\ \A i \in DOMAIN q : Has(st, p, q[i][1]) /\ Same(st, Val(st, p, q[i][1]), q[i][2])

(***************************************************************************)
(* Outcome of an operation                                                 *)
(***************************************************************************)
Sem(st, e) ==
  LET q == st.q IN
  IF e.op \in {"getitem", "setitem", "delitem", "get", "pop", "popd", "setdefault", "contains"} /\ Unhash(st, e.key)
  THEN Err(q, "TypeError")
  ELSE
  CASE e.op = "getitem" -> IF Has(st, q, e.key) THEN Done(q, R("t", Val(st, q, e.key))) ELSE Err(q, "KeyError")
    [] e.op = "setitem" -> IF Bad(st, e.v) THEN Err(q, "TypeError") ELSE Done(PutKey(st, q, e.key, e.v), Nothing)
    [] e.op = "delitem" -> IF Has(st, q, e.key) THEN Done(DelKey(st, q, e.key), Nothing) ELSE Err(q, "KeyError")
    [] e.op = "get" -> Done(q, R("t", IF Has(st, q, e.key) THEN Val(st, q, e.key) ELSE e.v))
    [] e.op = "contains" -> Done(q, R("b", Has(st, q, e.key)))
    [] e.op = "pop" ->
         IF Has(st, q, e.key) THEN Done(DelKey(st, q, e.key), R("t", Val(st, q, e.key))) ELSE Err(q, "KeyError")
    [] e.op = "popd" ->
         IF Has(st, q, e.key) THEN Done(DelKey(st, q, e.key), R("t", Val(st, q, e.key))) ELSE Done(q, R("t", e.v))
    [] e.op = "popitem" ->
         IF q = <<>> THEN Err(q, "KeyError") ELSE Done(Front(q), R("p", Last(q)))
    [] e.op = "setdefault" ->
         IF Has(st, q, e.key) THEN Done(q, R("t", Val(st, q, e.key)))
         ELSE IF Bad(st, e.v) THEN Err(q, "TypeError")
         ELSE Done(PutKey(st, q, e.key, e.v), R("t", e.v))
    [] e.op = "clear" -> Done(<<>>, Nothing)
    [] e.op = "update" -> PutAll(st, q, e.pairs)
    [] e.op = "len" -> Done(q, R("i", Len(q)))
    [] e.op = "bool" -> Done(q, R("b", q # <<>>))
    [] e.op \in {"iter", "keys"} -> Done(q, R("l", Keys(q)))
    [] e.op = "values" -> Done(q, R("l", Values(q)))
    [] e.op = "items" -> Done(q, R("pl", q))
    [] e.op = "hasitem" -> Done(q, R("b", Has(st, q, e.key) /\ Same(st, Val(st, q, e.key), e.v)))
    [] e.op = "hasvalue" -> Done(q, R("b", \E i \in DOMAIN q : Same(st, q[i][2], e.v)))
    [] e.op = "eq" -> Done(q, R("b", e.how # "nodict" /\ SameItems(st, q, e.pairs)))
    [] e.op = "copy" -> Done(q, R("pl", q))
    [] e.op = "nokey" -> Err(q, "TypeError")

(***************************************************************************)
(* Replaying the announcements from content q                              *)
(***************************************************************************)
RECURSIVE Replay(_, _, _, _, _)
Replay(st, q, x, pend, fin) ==
  IF x = <<>>
  THEN IF pend # <<>> THEN "an announced change was not completed"
       ELSE IF q # fin THEN "replaying the events does not give the new content" ELSE ""
  ELSE LET v == Head(x)
           rest == Tail(x) IN
  CASE v.n \in {"adding", "changing", "removing"} ->
         IF pend # <<>> THEN "an announced change was not completed"
         ELSE IF v.c # q THEN "an 'about to' event was emitted when the old content was not in place"
         ELSE IF (v.n = "adding") = Has(st, q, v.key) THEN "the wrong kind of change was announced before it"
         ELSE Replay(st, q, rest, <<v>>, fin)
    [] v.n = "added" ->
         IF pend = <<>> THEN "an addition was not announced before"
         ELSE IF pend[1].n # "adding" \/ ~Same(st, pend[1].key, v.key) THEN "an addition was announced differently before"
         ELSE LET q2 == PutKey(st, q, v.key, v.v) IN
              IF v.c # q2 THEN "an addition was announced wrongly, or when the new content was not in place"
              ELSE Replay(st, q2, rest, <<>>, fin)
    [] v.n = "changed" ->
         IF pend # <<>> /\ (pend[1].n # "changing" \/ ~Same(st, pend[1].key, v.key)) THEN "a replacement was announced differently before"
         ELSE IF ~Has(st, q, v.key) THEN "a replacement of a key that was not there was announced"
         ELSE IF v.old # Val(st, q, v.key) THEN "a replacement announced the wrong previous value"
         ELSE IF v.old = v.v THEN "assigning the object in place was announced"
         ELSE LET q2 == PutKey(st, q, v.key, v.v) IN
              IF v.c # q2 THEN "a replacement was announced wrongly, or when the new content was not in place"
              ELSE Replay(st, q2, rest, <<>>, fin)
    [] v.n = "removed" ->
         IF pend = <<>> THEN "a removal was not announced before"
         ELSE IF pend[1].n # "removing" \/ ~Same(st, pend[1].key, v.key) THEN "a removal was announced differently before"
         ELSE IF v.v # Val(st, q, v.key) THEN "a removal announced the wrong value"
         ELSE LET q2 == DelKey(st, q, v.key) IN
              IF v.c # q2 THEN "a removal was announced when the new content was not in place"
              ELSE Replay(st, q2, rest, <<>>, fin)
    [] OTHER -> "an event was emitted that is not part of the operation"

(* A listener of event e.boom raised: the caller gets the error; what was announced is
   what happened; one "about to" announcement may have remained without effect. *)
AboutTo == {"adding", "changing", "removing"}
DoBoom(st, e) ==
  LET s == Sem(st, e)
      undone == e.boom \in AboutTo IN
  IF e.r # "EmitLoopError" THEN Rej("the error of a listener was not reported (" \o e.op \o ")")
  ELSE IF e.x = <<>> THEN Rej("the announcement that failed did not reach the listeners before")
  ELSE IF Last(e.x).n # e.boom THEN Rej("an operation went on announcing changes after a listener had raised")
  ELSE LET w == Replay(st, st.q, IF undone THEN Front(e.x) ELSE e.x, <<>>, e.after) IN
  IF w # "" THEN Rej(w \o " (a listener raised; " \o e.op \o ")")
  ELSE IF e.op \notin {"update", "clear"} /\ e.after # (IF undone THEN st.q ELSE s.after)
  THEN Rej("the content after a listener had raised is neither the old nor the new one (" \o e.op \o ")")
  ELSE IF e.g # [i \in DOMAIN e.x |-> e.x[i].n] THEN Rej("the group of events did not announce what its members announced")
  ELSE Ok([st EXCEPT !.q = e.after])

DoOp(st, e) ==
  IF (IF "boom" \in DOMAIN e THEN e.boom # "" ELSE FALSE) THEN DoBoom(st, e) ELSE
  LET s == Sem(st, e) IN
  IF e.r # s.r
  THEN Rej(IF s.r = "ok" THEN "an operation raised that does not raise for a dict (" \o e.op \o ")"
           ELSE "an operation did not raise the error of a dict (" \o e.op \o ")")
  ELSE IF e.res # s.res THEN Rej("the result differs from that of a dict (" \o e.op \o ")")
  ELSE IF e.after # s.after THEN Rej("the content afterwards differs from that of a dict (" \o e.op \o ")")
  ELSE LET w == Replay(st, st.q, e.x, <<>>, s.after) IN
  IF w # "" THEN Rej(w \o " (" \o e.op \o ")")
  ELSE IF e.g # [i \in DOMAIN e.x |-> e.x[i].n] THEN Rej("the group of events did not announce what its members announced")
  ELSE Ok([st EXCEPT !.q = s.after])

DoNew(st, e) ==
  LET s == PutAll(st, <<>>, e.pairs) IN
  IF e.r # s.r THEN Rej("creating a dict raised differently from a dict")
  ELSE IF s.r # "ok" THEN Ok(st)
  ELSE Check(e.after = s.after, "a new dict has the wrong content", [st EXCEPT !.q = s.after])

Step(st, e) ==
  CASE e.k = "op" -> DoOp(st, e)
    [] e.k = "new" -> DoNew(st, e)
    [] e.k = "end" -> Ok(st)
    [] e.k = "unexpected" -> Rej("unexpected: " \o e.msg)
    [] OTHER -> Rej("unknown event " \o e.k)
=============================================================================
