------------------------------- MODULE PySeq -------------------------------
(* The semantics of Python's sequences: indices, slices, list operations.   *)
(* Positions are 0-based as in Python; TLA+ sequences hold the content.      *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
At(q, i) == q[i + 1]
InRange(q, i) == -Len(q) <= i /\ i < Len(q)
Pos(q, i) == IF i < 0 THEN i + Len(q) ELSE i
InsPos(q, i) == IF i < 0 THEN Max2(i + Len(q), 0) ELSE Min2(i, Len(q))
Ins(q, i, v) == SubSeq(q, 1, i) \o <<v>> \o SubSeq(q, i + 1, Len(q))
Del(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
Put(q, i, v) == [q EXCEPT ![i + 1] = v]

(* slice(start, stop, step): <<"s", has start, start, has stop, stop, step>> *)
SliceRange(k, n) ==
  LET step == k[6]
      lower == IF step < 0 THEN -1 ELSE 0
      upper == IF step < 0 THEN n - 1 ELSE n
      Clamp(x) == IF x < 0 THEN Max2(x + n, lower) ELSE Min2(x, upper)
      start == IF ~k[2] THEN (IF step < 0 THEN upper ELSE lower) ELSE Clamp(k[3])
      stop == IF ~k[4] THEN (IF step < 0 THEN lower ELSE upper) ELSE Clamp(k[5])
  IN <<start, stop, step>>
(* the positions a slice selects, in order *)
SlicePositions(k, n) ==
  LET r == SliceRange(k, n)
      span == IF r[3] > 0 THEN r[2] - r[1] ELSE r[1] - r[2]
      st == IF r[3] > 0 THEN r[3] ELSE -r[3]
      cnt == IF span <= 0 THEN 0 ELSE (span + st - 1) \div st
  IN [i \in 1..cnt |-> r[1] + (i - 1) * r[3]]
GetSlice(q, k) == LET ps == SlicePositions(k, Len(q)) IN [i \in DOMAIN ps |-> At(q, ps[i])]
DelSlice(q, k) ==
  LET ps == Range(SlicePositions(k, Len(q)))
      keep == SelectSeq([i \in 1..Len(q) |-> i - 1], LAMBDA p : p \notin ps)
  IN [i \in DOMAIN keep |-> At(q, keep[i])]
(* assignment to a slice; an extended slice needs as many values *)
SetSliceOk(q, k, vs) == k[6] = 1 \/ Len(vs) = Len(SlicePositions(k, Len(q)))
SetSlice(q, k, vs) ==
  IF k[6] = 1
  THEN LET r == SliceRange(k, Len(q)) IN
       SubSeq(q, 1, r[1]) \o vs \o SubSeq(q, Max2(r[1], r[2]) + 1, Len(q))
  ELSE LET ps == SlicePositions(k, Len(q)) IN
       [p \in 1..Len(q) |->
          IF \E i \in DOMAIN ps : ps[i] = p - 1 THEN vs[CHOOSE i \in DOMAIN ps : ps[i] = p - 1]
          ELSE q[p]]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Count(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
IsPerm(q, r) == Len(q) = Len(r) /\ \A v \in Range(q) : Count(q, v) = Count(r, v)
=============================================================================
