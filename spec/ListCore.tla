------------------------------ MODULE ListCore ------------------------------
(***************************************************************************)
(* An evented list: what every operation does to the content (that of a   *)
(* built-in list), what it returns or raises, and which sequences of       *)
(* events announce it.  Items are opaque tokens; st.eq maps each token to  *)
(* its equality class (== of Python), tokens themselves are identities.    *)
(*                                                                         *)
(* An operation is one observable event: its arguments, its outcome, the   *)
(* announcements it made (each with the content at that moment) and the    *)
(* content afterwards.                                                     *)
(***************************************************************************)
EXTENDS PySeq

Rej(why) == [ok |-> FALSE, why |-> why]
Ok(st) == [ok |-> TRUE, st |-> st]
Check(cond, why, st) == IF cond THEN Ok(st) ELSE Rej(why)

Res(k, v) == <<k, v>>
Nothing == Res("none", "")
AnyRes == Res("any", "")
Done(q, res) == [r |-> "ok", res |-> res, after |-> q]
Err(q, name) == [r |-> name, res |-> Nothing, after |-> q]

InitSt(hdr) ==
  [items |-> hdr.items, eq |-> hdr.eq, child |-> hdr.child, hashable |-> hdr.hashable,
   bad |-> hdr.bad, subst |-> hdr.subst]

SameVal(st, a, b) == st.eq[a] = st.eq[b]
(* what a subclass makes of a value before it is stored *)
Conv(st, v) == IF v \in DOMAIN st.subst THEN st.subst[v] ELSE v
ConvAll(st, vs) == [i \in DOMAIN vs |-> Conv(st, vs[i])]
Refused(st, v) == v \in Range(st.bad)
AnyRefused(st, vs) == \E i \in DOMAIN vs : Refused(st, vs[i])
ErrBad == "Refused"

(* first position >= lo and < hi with an equal item, or -1 *)
FindIn(st, q, v, lo, hi) ==
  LET m == {i \in 0..(Len(q) - 1) : i >= lo /\ i < hi /\ SameVal(st, At(q, i), v)}
  IN IF m = {} THEN -1 ELSE CHOOSE i \in m : \A j \in m : i <= j

(* destinations count from the end as "after the last": -1 is the end *)
DestPos(q, d) == LET x == IF d < 0 THEN d + Len(q) + 1 ELSE d IN Min2(Max2(x, 0), Len(q))

Move(q, s, d) ==
  LET src == Pos(q, s)
      dst == DestPos(q, d)
      at == IF dst > src THEN dst - 1 ELSE dst
  IN Ins(Del(q, src), at, At(q, src))

(* the distinct positions named by a sequence of indices and slices, in order *)
RECURSIVE Named(_, _)
Named(q, keys) ==
  IF keys = <<>> THEN <<>>
  ELSE LET k == Head(keys) IN
       (IF k[1] = "i" THEN <<Pos(q, k[2])>> ELSE SlicePositions(k, Len(q))) \o Named(q, Tail(keys))
RECURSIVE Unique(_)
Unique(p) == IF p = <<>> THEN <<>>
             ELSE LET h == Unique(Front(p)) IN IF Last(p) \in Range(h) THEN h ELSE Append(h, Last(p))
MoveMany(q, ps, d) ==
  LET dst == DestPos(q, d)
      all == [i \in 1..Len(q) |-> i - 1]
      lo == SelectSeq(all, LAMBDA p : p < dst /\ p \notin Range(ps))
      hi == SelectSeq(all, LAMBDA p : p >= dst /\ p \notin Range(ps))
      order == lo \o ps \o hi
  IN [i \in DOMAIN order |-> At(q, order[i])]

(***************************************************************************)
(* Outcome of an operation on content q                                    *)
(***************************************************************************)
Sem(st, e) ==
  LET q == st.items IN
  CASE e.op = "getitem" ->
         IF e.key[1] = "i"
         THEN IF InRange(q, e.key[2]) THEN Done(q, Res("t", At(q, Pos(q, e.key[2])))) ELSE Err(q, "IndexError")
         ELSE IF e.key[6] = 0 THEN Err(q, "ValueError")
         ELSE Done(q, Res("l", GetSlice(q, e.key)))
    [] e.op = "setitem" ->
         IF ~InRange(q, e.key[2]) THEN Err(q, "IndexError")
         ELSE IF At(q, Pos(q, e.key[2])) = e.v THEN Done(q, Nothing)
         ELSE IF Refused(st, e.v) THEN Err(q, ErrBad)
         ELSE Done(Put(q, Pos(q, e.key[2]), Conv(st, e.v)), Nothing)
    [] e.op = "setslice" ->
         IF e.key[6] = 0 THEN Err(q, "ValueError")
         ELSE IF e.how = "nonit" THEN Err(q, "TypeError")
         ELSE IF AnyRefused(st, e.vs) THEN Err(q, ErrBad)
         ELSE IF ~SetSliceOk(q, e.key, e.vs) THEN Err(q, "ValueError")
         ELSE Done(SetSlice(q, e.key, ConvAll(st, e.vs)), Nothing)
    [] e.op = "delitem" ->
         IF e.key[1] = "i"
         THEN IF InRange(q, e.key[2]) THEN Done(Del(q, Pos(q, e.key[2])), Nothing) ELSE Err(q, "IndexError")
         ELSE IF e.key[6] = 0 THEN Err(q, "ValueError")
         ELSE Done(DelSlice(q, e.key), Nothing)
    [] e.op = "badkey" -> Err(q, "TypeError")
    [] e.op = "insert" ->
         IF Refused(st, e.v) THEN Err(q, ErrBad)
         ELSE Done(Ins(q, InsPos(q, e.i), Conv(st, e.v)), Nothing)
    [] e.op = "append" ->
         IF Refused(st, e.v) THEN Err(q, ErrBad) ELSE Done(Append(q, Conv(st, e.v)), Nothing)
    [] e.op \in {"extend", "iadd"} ->
         IF e.how = "nonit" THEN Err(q, "TypeError") ELSE Done(q \o ConvAll(st, e.vs), Nothing)
    [] e.op = "pop" ->
         IF InRange(q, e.i) THEN Done(Del(q, Pos(q, e.i)), Res("t", At(q, Pos(q, e.i)))) ELSE Err(q, "IndexError")
    [] e.op = "remove" ->
         LET i == FindIn(st, q, e.v, 0, Len(q)) IN
         IF i < 0 THEN Err(q, "ValueError") ELSE Done(Del(q, i), Nothing)
    [] e.op = "clear" -> Done(<<>>, Nothing)
    [] e.op = "reverse" -> Done(Rev(q), Nothing)
    [] e.op = "index" ->
         LET n == Len(q)
             lo == IF e.lo < 0 THEN Max2(e.lo + n, 0) ELSE e.lo
             hi == IF e.hashi THEN (IF e.hi < 0 THEN e.hi + n ELSE e.hi) ELSE n
             i == FindIn(st, q, e.v, lo, hi)
         IN IF i < 0 THEN Err(q, "ValueError") ELSE Done(q, Res("i", i))
    [] e.op = "count" -> Done(q, Res("i", Cardinality({i \in DOMAIN q : SameVal(st, q[i], e.v)})))
    [] e.op = "contains" -> Done(q, Res("b", FindIn(st, q, e.v, 0, Len(q)) >= 0))
    [] e.op = "iter" -> Done(q, Res("l", q))
    [] e.op = "reversed" -> Done(q, Res("l", Rev(q)))
    [] e.op = "len" -> Done(q, Res("i", Len(q)))
    [] e.op = "bool" -> Done(q, Res("b", q # <<>>))
    [] e.op = "eq" -> Done(q, Res("b", e.how # "tuple" /\ Len(q) = Len(e.vs) /\ \A i \in DOMAIN q : SameVal(st, q[i], e.vs[i])))
    [] e.op = "add" -> IF e.how = "nonit" THEN Err(q, "TypeError") ELSE Done(q, Res("l", q \o ConvAll(st, e.vs)))
    [] e.op = "radd" -> Done(q, Res("l", e.vs \o q))
    [] e.op = "copy" -> Done(q, Res("l", q))
    [] e.op = "hash" -> IF st.hashable THEN Done(q, Res("b", TRUE)) ELSE Err(q, "TypeError")
    [] e.op = "move" ->
         IF InRange(q, e.i) THEN Done(Move(q, e.i, e.d), AnyRes) ELSE Err(q, "IndexError")
    [] e.op = "move_multiple" ->
         IF \E i \in DOMAIN e.keys : e.keys[i][1] = "i" /\ ~InRange(q, e.keys[i][2]) THEN Err(q, "IndexError")
         ELSE Done(MoveMany(q, Unique(Named(q, e.keys)), e.d), AnyRes)

(***************************************************************************)
(* Replaying announcements                                                 *)
(***************************************************************************)
(* item e.v's events are re-announced for exactly as long as it is in the list:
   announcements e.x when it emitted signal e.s with e.a and the content was q *)
ChildOk(q, due, e) ==
  IF ~due
  THEN IF e.x = <<>> THEN "" ELSE "an event of an item that is not in the list (or not asked for) was re-announced"
  ELSE IF Len(e.x) = 0 THEN "an event of an item in the list was not re-announced"
  ELSE IF Len(e.x) > 1 THEN "an event of an item in the list was re-announced more than once"
  ELSE LET x == e.x[1] IN
       IF x.v # e.v \/ x.s # e.s \/ x.a # e.a THEN "an event of an item was re-announced with the wrong item, signal or arguments"
       ELSE IF ~(0 <= x.i /\ x.i < Len(q)) THEN "an event of an item was re-announced with a position that does not exist"
       ELSE IF At(q, x.i) # e.v THEN "an event of an item was re-announced with the wrong position" ELSE ""

ReOrder == {"move", "move_multiple", "reverse"}

(* outcome of replaying announcements x of an operation, from content q; `pend`
   is the announcement of a change that is about to be made (or <<>>) *)
AboutTo == {"inserting", "removing", "moving"}
RECURSIVE Replay(_, _, _, _, _)
Replay(op, q, x, pend, fin) ==
  IF x = <<>>
  THEN IF pend # <<>> THEN "an announced change was not completed"
       ELSE IF q # fin THEN "replaying the events does not give the new content" ELSE ""
  ELSE LET v == Head(x)
           rest == Tail(x) IN
  CASE v.n \in AboutTo ->
         IF pend # <<>> THEN "an announced change was not completed"
         ELSE IF v.c # q THEN "an 'about to' event was emitted when the old content was not in place"
         ELSE IF v.n = "removing" /\ ~(0 <= v.i /\ v.i < Len(q)) THEN "a removal was announced at a position that does not exist"
         ELSE IF v.n = "moving" /\ ~(0 <= v.i /\ v.i < Len(q) /\ 0 <= v.j /\ v.j <= Len(q)) THEN "a move was announced at positions that do not exist"
         ELSE Replay(op, q, rest, <<v>>, fin)
    [] v.n = "inserted" ->
         IF pend = <<>> THEN "an insertion was not announced before"
         ELSE IF pend[1].n # "inserting" \/ pend[1].i # v.i THEN "an insertion was announced differently before"
         ELSE LET q2 == Ins(q, InsPos(q, v.i), v.v) IN
              IF v.c # q2 THEN "an insertion was announced wrongly, or when the new content was not in place"
              ELSE Replay(op, q2, rest, <<>>, fin)
    [] v.n = "removed" ->
         IF pend = <<>> THEN "a removal was not announced before"
         ELSE IF pend[1].n # "removing" \/ pend[1].i # v.i THEN "a removal was announced differently before"
         ELSE IF At(q, v.i) # v.v THEN "a removal announced the wrong item"
         ELSE LET q2 == Del(q, v.i) IN
              IF v.c # q2 THEN "a removal was announced when the new content was not in place"
              ELSE Replay(op, q2, rest, <<>>, fin)
    [] v.n = "moved" ->
         IF pend = <<>> THEN "a move was not announced before"
         ELSE IF pend[1].n # "moving" \/ pend[1].i # v.i THEN "a move was announced differently before"
         ELSE IF ~(0 <= v.j /\ v.j < Len(q)) THEN "a move was announced to a position that does not exist"
         ELSE IF At(q, v.i) # v.v THEN "a move announced the wrong item"
         ELSE LET q2 == Ins(Del(q, v.i), v.j, v.v) IN
              IF v.c # q2 THEN "a move was announced wrongly, or when the new content was not in place"
              ELSE IF pend[1].j # (IF v.j >= v.i THEN v.j + 1 ELSE v.j) THEN "a move was announced to another destination before"
              ELSE Replay(op, q2, rest, <<>>, fin)
    [] v.n = "changed" ->
         IF pend # <<>> THEN "an announced change was not completed"
         ELSE IF v.key[1] = "i"
         THEN IF ~InRange(q, v.key[2]) THEN "a change was announced at a position that does not exist"
              ELSE LET p == Pos(q, v.key[2])
                       q2 == Put(q, p, v.new[1]) IN
              IF v.old # <<At(q, p)>> THEN "a change announced the wrong old item"
              ELSE IF v.c # q2 THEN "a change was announced wrongly, or when the new content was not in place"
              ELSE Replay(op, q2, rest, <<>>, fin)
         ELSE IF v.old # GetSlice(q, v.key) THEN "a change announced the wrong old items"
              ELSE IF ~SetSliceOk(q, v.key, v.new) THEN "a change was announced that is not possible"
              ELSE LET q2 == SetSlice(q, v.key, v.new) IN
              IF v.c # q2 THEN "a change was announced wrongly, or when the new content was not in place"
              ELSE Replay(op, q2, rest, <<>>, fin)
    [] v.n = "reordered" ->
         IF pend # <<>> THEN "an announced change was not completed"
         ELSE IF op \notin ReOrder THEN "a reordering was announced although nothing was moved"
         ELSE IF op = "reverse" /\ IsPerm(q, v.c) THEN Replay(op, v.c, rest, <<>>, fin)
         ELSE IF v.c # q THEN "a reordering was announced when the new content was not in place"
         ELSE Replay(op, q, rest, <<>>, fin)
    [] v.n = "child" ->
         LET w == ChildOk(v.c, v.v \in Range(v.c), v) IN
              IF w # "" THEN w ELSE Replay(op, q, rest, pend, fin)
    [] OTHER -> "an event was emitted that is not part of the operation: " \o v.n

NReordered(x) == Cardinality({i \in DOMAIN x : x[i].n = "reordered"})

DoChild(st, e) ==
  LET w == ChildOk(st.items, st.child /\ e.v \in Range(st.items), e) IN
  IF w = "" THEN Ok(st) ELSE Rej(w)

Names(x) == LET y == SelectSeq(x, LAMBDA v : v.n # "child") IN [i \in DOMAIN y |-> y[i].n]

(* A listener of event e.boom raised.  The caller gets the error; what was announced
   is what happened: one "about to" announcement may have remained without effect. *)
Single(e) ==
  \/ e.op \in {"insert", "append", "pop", "remove", "setitem", "setslice", "move"}
  \/ e.op = "delitem" /\ e.key[1] = "i"
  \/ e.boom = "reordered"
DoBoom(st, e) ==
  LET s == Sem(st, e)
      y == SelectSeq(e.x, LAMBDA v : v.n # "child")
      undone == e.boom \in AboutTo
      z == IF undone /\ Len(y) > 0 THEN SubSeq(e.x, 1, (CHOOSE i \in DOMAIN e.x : e.x[i].n # "child" /\ \A j \in DOMAIN e.x : j > i => e.x[j].n = "child") - 1) ELSE e.x
  IN
  IF e.r # "EmitLoopError" THEN Rej("the error of a listener was not reported (" \o e.op \o ")")
  ELSE IF y = <<>> THEN Rej("the announcement that failed did not reach the listeners before")
  ELSE IF Last(y).n # e.boom THEN Rej("an operation went on announcing changes after a listener had raised")
  ELSE IF s.r # "ok" /\ (e.after # st.items \/ ~undone) THEN Rej("an operation that raised announced a change")
  ELSE LET w == Replay(e.op, st.items, z, <<>>, e.after) IN
  IF w # "" THEN Rej(w \o " (a listener raised; " \o e.op \o ")")
  ELSE IF Single(e) /\ e.after # (IF undone THEN st.items ELSE s.after)
  THEN Rej("the content after a listener had raised is neither the old nor the new one (" \o e.op \o ")")
  ELSE IF NReordered(e.x) > 1 THEN Rej("a reordering was not announced exactly once")
  ELSE IF e.g # Names(e.x) THEN Rej("the group of events did not announce what its members announced")
  ELSE Ok([st EXCEPT !.items = e.after])

DoOp(st, e) ==
  IF (IF "boom" \in DOMAIN e THEN e.boom # "" ELSE FALSE) THEN DoBoom(st, e) ELSE
  LET s == Sem(st, e) IN
  IF e.r # s.r
  THEN Rej(IF s.r = "ok" THEN "an operation raised that does not raise for a list (" \o e.op \o ")"
           ELSE "an operation did not raise the error of a list (" \o e.op \o ")")
  ELSE IF s.res # AnyRes /\ e.res # s.res THEN Rej("the result differs from that of a list (" \o e.op \o ")")
  ELSE IF e.after # s.after THEN Rej("the content afterwards differs from that of a list (" \o e.op \o ")")
  ELSE IF s.r # "ok" /\ \E i \in DOMAIN e.x : e.x[i].n \in {"inserted", "removed", "moved", "changed", "reordered"}
  THEN Rej("an operation that raised announced a change")
  ELSE LET w == IF s.r # "ok" THEN "" ELSE Replay(e.op, st.items, e.x, <<>>, s.after) IN
  IF w # "" THEN Rej(w \o " (" \o e.op \o ")")
  ELSE IF e.op \in ReOrder /\ s.after # st.items /\ NReordered(e.x) # 1
  THEN Rej("a reordering was not announced exactly once")
  ELSE IF e.g # Names(e.x) THEN Rej("the group of events did not announce what its members announced")
  ELSE Ok([st EXCEPT !.items = s.after])

(* a new list; what it was made of is its content *)
DoNew(st, e) == Check(e.after = ConvAll(st, e.items), "a new list has the wrong content", [st EXCEPT !.items = e.after])

Step(st, e) ==
  CASE e.k = "op" -> DoOp(st, e)
    [] e.k = "new" -> DoNew(st, e)
    [] e.k = "child" -> DoChild(st, e)
    [] e.k = "end" -> Ok(st)
    [] e.k = "unexpected" -> Rej("unexpected: " \o e.msg)
    [] OTHER -> Rej("unknown event " \o e.k)
=============================================================================
