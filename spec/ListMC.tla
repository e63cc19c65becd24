------------------------------- MODULE ListMC -------------------------------
(* All operations on all small lists: the list semantics of ListCore has the *)
(* properties that C18 states declaratively, a natural way of announcing     *)
(* every operation is accepted by Replay, and one with a flaw is not.         *)
EXTENDS ListCore

CONSTANTS MaxLen, Toks, EqOf, Steps

VARIABLES q, last
vars == <<q, last>>

St(items) == [items |-> items, eq |-> EqOf, child |-> FALSE, hashable |-> TRUE, bad |-> <<>>, subst |-> <<>>]
Idx(n) == (-n - 2)..(n + 2)
Ends(n) == {<<FALSE, 0>>} \cup {<<TRUE, i>> : i \in (-n - 1)..(n + 1)}
Slices(n) == {<<"s", a[1], a[2], b[1], b[2], s>> : a \in Ends(n), b \in Ends(n), s \in Steps}
Vals == {<<>>} \cup {<<a>> : a \in Toks} \cup {<<a, b>> : a, b \in Toks}

Ops(n) ==
  {[op |-> "insert", i |-> i, v |-> v] : i \in Idx(n), v \in Toks}
  \cup {[op |-> "append", v |-> v] : v \in Toks}
  \cup {[op |-> "setitem", key |-> <<"i", i>>, v |-> v] : i \in Idx(n), v \in Toks}
  \cup {[op |-> "setslice", key |-> k, how |-> "list", vs |-> vs] : k \in Slices(n), vs \in Vals}
  \cup {[op |-> "delitem", key |-> <<"i", i>>] : i \in Idx(n)}
  \cup {[op |-> "delitem", key |-> k] : k \in Slices(n)}
  \cup {[op |-> "getitem", key |-> k] : k \in Slices(n)}
  \cup {[op |-> "pop", i |-> i] : i \in Idx(n)}
  \cup {[op |-> "remove", v |-> v] : v \in Toks}
  \cup {[op |-> "reverse"], [op |-> "clear"]}
  \cup {[op |-> "move", i |-> i, d |-> d] : i, d \in Idx(n)}
  \cup {[op |-> "move_multiple", keys |-> ks, d |-> d] :
          ks \in {<<<<"i", a>>>> : a \in Idx(n)} \cup {<<<<"i", a>>, <<"i", b>>>> : a, b \in Idx(n)}, d \in Idx(n)}

(***************************************************************************)
(* The natural announcements of an operation                               *)
(***************************************************************************)
A(n, i, v, c) == [n |-> n, i |-> i, j |-> 0, v |-> v, c |-> c, key |-> <<"i", 0>>, old |-> <<>>, new |-> <<>>]
InsX(s, i, v) == <<A("inserting", i, "", s), A("inserted", i, v, Ins(s, InsPos(s, i), v))>>
RECURSIVE DelX(_, _)
DelX(s, ps) ==  (* positions in descending order *)
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps) IN
       <<A("removing", p, "", s), A("removed", p, At(s, p), Del(s, p))>> \o DelX(Del(s, p), Tail(ps))
Desc(S, n) == Rev(SelectSeq([i \in 1..n |-> i - 1], LAMBDA p : p \in S))
MoveX(s, i, d) ==
  LET src == Pos(s, i)
      dst == DestPos(s, d)
      at == IF dst > src THEN dst - 1 ELSE dst
  IN IF dst \in {src, src + 1} THEN <<>>
     ELSE <<[A("moving", src, "", s) EXCEPT !.j = dst],
            [A("moved", src, At(s, src), Move(s, i, d)) EXCEPT !.j = at]>>
(* moving several: one after the other, each in front of the same item *)
RECURSIVE ManyX(_, _, _, _)
ManyX(s, order, ps, dst) ==
  IF ps = <<>> THEN <<>>
  ELSE LET src == CHOOSE x \in 0..(Len(order) - 1) : At(order, x) = Head(ps)
           at == IF dst > src THEN dst - 1 ELSE dst
           s2 == Ins(Del(s, src), at, At(s, src))
           o2 == Ins(Del(order, src), at, Head(ps))
       IN MoveX(s, src, dst) \o ManyX(s2, o2, Tail(ps), IF dst <= src THEN dst + 1 ELSE dst)
Reo(x, fin) == Append(x, A("reordered", 0, "", fin))

Announce(s, e, fin) ==
  CASE e.op = "insert" -> InsX(s, e.i, e.v)
    [] e.op = "append" -> InsX(s, Len(s), e.v)
    [] e.op = "setitem" ->
         IF fin = s THEN <<>>
         ELSE <<[A("changed", 0, "", fin) EXCEPT !.key = e.key, !.old = <<At(s, Pos(s, e.key[2]))>>, !.new = <<e.v>>]>>
    [] e.op = "setslice" ->
         <<[A("changed", 0, "", fin) EXCEPT !.key = e.key, !.old = GetSlice(s, e.key), !.new = e.vs]>>
    [] e.op = "delitem" ->
         DelX(s, IF e.key[1] = "i" THEN <<Pos(s, e.key[2])>> ELSE Desc(Range(SlicePositions(e.key, Len(s))), Len(s)))
    [] e.op = "pop" -> DelX(s, <<Pos(s, e.i)>>)
    [] e.op = "remove" -> DelX(s, <<FindIn(St(s), s, e.v, 0, Len(s))>>)
    [] e.op = "clear" -> DelX(s, Desc(0..(Len(s) - 1), Len(s)))
    [] e.op = "reverse" -> Reo(<<>>, fin)
    [] e.op = "move" -> IF fin = s THEN <<>> ELSE Reo(MoveX(s, e.i, e.d), fin)
    [] e.op = "move_multiple" ->
         Reo(ManyX(s, [i \in 1..Len(s) |-> i - 1], Unique(Named(s, e.keys)), DestPos(s, e.d)), fin)
    [] OTHER -> <<>>

(***************************************************************************)
Init == q = <<>> /\ last = [op |-> "none"]
Apply(e) ==
  LET s == Sem(St(q), e) IN
  /\ Len(s.after) <= MaxLen
  /\ q' = s.after
  /\ last' = [op |-> e.op, e |-> e, before |-> q, r |-> s.r, res |-> s.res]
Next == \E e \in Ops(Len(q)) : Apply(e)
Spec == Init /\ [][Next]_vars
View == q

(***************************************************************************)
(* Properties, checked on every transition                                 *)
(***************************************************************************)
E == last'.e
B == last'.before
MoveFront ==  (* the moved item is in front of the item that was at the destination *)
  E.op = "move" /\ last'.r = "ok" =>
    LET src == Pos(B, E.i)
        dst == DestPos(B, E.d)
        at == IF dst > src THEN dst - 1 ELSE dst
    IN /\ IsPerm(B, q')
       /\ At(q', at) = At(B, src)
       /\ (dst < Len(B) /\ dst # src) => At(q', at + 1) = At(B, dst)
       /\ Del(q', at) = Del(B, src)
DelSlice2(s, P) == LET k == SelectSeq([i \in 1..Len(s) |-> i - 1], LAMBDA p : p \notin P) IN [i \in DOMAIN k |-> At(s, k[i])]
ManyTogether ==
  E.op = "move_multiple" /\ last'.r = "ok" =>
    LET ps == Unique(Named(B, E.keys))
        dst == DestPos(B, E.d)
    IN /\ IsPerm(B, q')
       /\ \E at \in 0..Len(B) :
            /\ \A i \in DOMAIN ps : At(q', at + i - 1) = At(B, ps[i])
            /\ (dst < Len(B) /\ dst \notin Range(ps)) => At(q', at + Len(ps)) = At(B, dst)
            /\ SubSeq(q', 1, at) \o SubSeq(q', at + Len(ps) + 1, Len(q')) = DelSlice2(B, Range(ps))

OneMove ==  (* moving a single one is the same either way *)
  E.op = "move" /\ last'.r = "ok" => q' = MoveMany(B, <<Pos(B, E.i)>>, E.d)
SliceLaws ==
  /\ E.op = "setslice" /\ last'.r = "ok" /\ E.key[6] # 1 => GetSlice(q', E.key) = E.vs
  /\ E.op = "setslice" /\ last'.r = "ok" /\ E.key[6] = 1 =>
       Len(q') = Len(B) - Len(GetSlice(B, E.key)) + Len(E.vs)
  /\ E.op = "delitem" /\ last'.r = "ok" /\ E.key[1] = "s" =>
       Len(q') = Len(B) - Len(GetSlice(B, E.key)) /\ \A v \in Toks : Count(B, v) = Count(q', v) + Count(GetSlice(B, E.key), v)
  /\ E.op = "reverse" => Rev(q') = B
  /\ E.op = "pop" /\ last'.r = "ok" => Ins(q', Pos(B, E.i), last'.res[2]) = B
  /\ E.op = "remove" /\ last'.r = "ok" => \E i \in 0..Len(q') : \E v \in Toks : EqOf[v] = EqOf[E.v] /\ Ins(q', i, v) = B
FailedKeeps == last'.r # "ok" => q' = B
X == Announce(B, E, q')
Announced == last'.r = "ok" => Replay(E.op, B, X, <<>>, q') = ""
(* dropping one announcement, or one wrong value, is noticed *)
Dropped ==
  last'.r = "ok" =>
    \A i \in DOMAIN X :
      LET Y == RemoveAt(X, i) IN
      X[i].n \in {"inserting", "inserted", "removing", "removed", "moving", "moved"}
      \/ (X[i].n = "changed" /\ q' # B) => Replay(E.op, B, Y, <<>>, q') # ""
Shifted ==
  last'.r = "ok" =>
    \A i \in DOMAIN X :
      X[i].n \in {"removed", "moved"} =>
        Replay(E.op, B, [X EXCEPT ![i].i = @ + 1], <<>>, q') # ""

PMove == [][MoveFront /\ OneMove]_vars
PMany == [][ManyTogether]_vars
PSlice == [][SliceLaws /\ FailedKeeps]_vars
PAnnounce == [][Announced /\ Dropped /\ Shifted]_vars
=============================================================================
