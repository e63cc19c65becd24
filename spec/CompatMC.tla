------------------------------ MODULE CompatMC -------------------------------
(* All callables with few parameters, connected and called: what the           *)
(* specification accepts is compared with what binding a call means (every      *)
(* parameter gets at most one value, those without a default get one), and       *)
(* what callbacks are given with "the longest prefix they can be called with".   *)
EXTENDS CompatCore

CONSTANTS MaxPos,       (* positional parameters *)
          MaxPre,       (* bound positional arguments *)
          MaxKws,       (* names bound by keyword *)
          MaxDecl,      (* declared arguments *)
          Annos,        (* annotations that are used: "none", or some of them *)
          Checks        (* settings <<nargs, types>> of connections *)
VARIABLES st, cal, decl, seen, last
vars == <<st, cal, decl, seen, last>>

Names3 == <<"a", "b", "c", "d">>
Anno == CASE Annos = "none" -> {<<>>} [] OTHER -> {<<>>, <<"A">>, <<"B">>, <<"A", "none">>, <<"object">>}
Decls == CASE Annos = "none" -> {<<>>} [] OTHER -> {<<>>, <<"A">>, <<"B">>, <<"int", "A">>}
AllChecks == {<<TRUE, FALSE>>, <<FALSE, FALSE>>}
TypeChecks == {<<TRUE, TRUE>>, <<FALSE, TRUE>>}

Seqs(S, n) == [1..n -> S]
P(nm, k, d, t) == [n |-> nm, k |-> k, d |-> d, t |-> t]
Pos(n, npo, nd, ts) == [i \in 1..n |-> P(Names3[i], IF i <= npo THEN "po" ELSE "pk", i > n - nd, ts[i])]
ParamLists == {Pos(n, npo, nd, ts) \o v \o k \o w :
                 <<n, npo, nd>> \in {x \in (0..MaxPos) \X (0..MaxPos) \X (0..MaxPos) : x[2] <= x[1] /\ x[3] <= x[1]},
                 ts \in Seqs(Anno, MaxPos),
                 v \in {<<>>} \cup {<<P("args", "vp", FALSE, t)>> : t \in Anno},
                 k \in IF Annos = "none" THEN {<<>>, <<P("k", "ko", FALSE, <<>>)>>, <<P("k", "ko", TRUE, <<>>)>>} ELSE {<<>>},
                 w \in IF Annos = "none" THEN {<<>>, <<P("kw", "vk", FALSE, <<>>)>>} ELSE {<<>>}}
KwNames == {"a", "b", "k", "zz"}
KwLists == {SetToSeq(s) : s \in {x \in SUBSET KwNames : Cardinality(x) <= MaxKws}}
Callables == {[params |-> p, pre |-> n, kws |-> k] : p \in ParamLists, n \in 0..MaxPre, k \in KwLists}

(* What binding means: who gets a value? *)
Gets(c, n, j) ==
  LET p == c.params[j]
      at == Cardinality({i \in 1..j : c.params[i].k \in {"po", "pk"}})
      byPos == IF p.k \in {"po", "pk"} /\ at <= c.pre + n THEN 1 ELSE 0
      byName == IF p.k \in {"pk", "ko"} /\ Bound(c, p.n) THEN 1 ELSE 0 IN
  byPos + byName
Binds(c, n) ==
  /\ \A j \in DOMAIN c.params : c.params[j].k \in {"po", "pk", "ko"} => Gets(c, n, j) \in (IF c.params[j].d THEN {0, 1} ELSE {1})
  /\ Has(c, "vp") \/ c.pre + n <= Cardinality({j \in DOMAIN c.params : c.params[j].k \in {"po", "pk"}})
  /\ Has(c, "vk") \/ \A i \in DOMAIN c.kws : \E j \in DOMAIN c.params : c.params[j].n = c.kws[i] /\ c.params[j].k \in {"pk", "ko"}

(* The number of arguments by counting: at least Lo, at most Hi *)
Free(c) == LET Q == Positional(c)
               cut == {j \in DOMAIN Q : Q[j].k = "pk" /\ Bound(c, Q[j].n)} IN
           IF cut = {} THEN Len(Q) ELSE (CHOOSE j \in cut : \A k \in cut : j <= k) - 1
Must(c) == LET Q == Positional(c)
               req == {j \in DOMAIN Q : ~Q[j].d /\ ~(Q[j].k = "pk" /\ Bound(c, Q[j].n))} IN
           IF req = {} THEN 0 ELSE CHOOSE j \in req : \A k \in req : j >= k
Unlimited(c) == Has(c, "vp") /\ Free(c) = Len(Positional(c))

----------------------------------------------------------------------------
Init == /\ cal \in Callables
        /\ decl \in UNION {Seqs(Decls, n) : n \in 0..MaxDecl}
        /\ st = [InitSt(<<>>) EXCEPT !.sig = [decl |-> decl, req |-> Len(decl), nargs |-> TRUE, types |-> FALSE]]
        /\ seen = <<>> /\ last = <<"start">>

Con(x, mx, r) == [k |-> "con", id |-> "c1", cal |-> cal, max |-> mx, nargs |-> IF x[1] THEN "y" ELSE "n",
                  types |-> IF x[2] THEN "y" ELSE "n", queued |-> FALSE, set |-> FALSE, r |-> r, len |-> IF r = "ok" THEN 1 ELSE 0]
Do(e, l) == LET r == Step(st, e) IN /\ r.ok /\ st' = r.st /\ last' = l
Connected(x, mx, r) == /\ last = <<"start">> /\ Do(Con(x, mx, r), <<r, x, mx>>) /\ UNCHANGED <<cal, decl, seen>>
Emits(n) == /\ last # <<"start">> /\ last[1] = "ok" /\ st.busy = "" /\ Len(seen) < 1
            /\ Do([k |-> "emit", args |-> [i \in 1..n |-> <<"int">>], cn |-> TRUE, ct |-> FALSE], last)
            /\ seen' = Append(seen, <<n, -1, "">>) /\ UNCHANGED <<cal, decl>>
Called(m) == /\ st.busy # "" /\ Do([k |-> "cb", id |-> "c1", a |-> Names(m)], last)
             /\ seen' = [seen EXCEPT ![Len(seen)][2] = m] /\ UNCHANGED <<cal, decl>>
Done(r) == /\ st.busy # "" /\ Do([k |-> "done", r |-> r], last)
           /\ seen' = [seen EXCEPT ![Len(seen)][3] = r] /\ UNCHANGED <<cal, decl>>
Next == \/ \E x \in Checks, mx \in -1..MaxDecl, r \in {"ok", "ValueError", "TypeError"} : Connected(x, mx, r)
        \/ \E n \in 0..(MaxDecl + 1) : Emits(n)
        \/ \E m \in 0..(MaxDecl + 1) : Called(m)
        \/ \E r \in {"ok", "TypeError", "EmitLoopError"} : Done(r)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* binding, and counting, are the same thing *)
Same == last = <<"start">> =>
  \A n \in 0..(MaxDecl + 1) :
    /\ CanCall(cal, n) <=> Binds(cal, n)
    /\ \A m \in 0..n : \A k \in m..n : (CanCall(cal, m) /\ CanCall(cal, n)) => CanCall(cal, k)
    /\ CanCall(cal, n) => /\ cal.pre + n >= Must(cal) \/ Must(cal) <= cal.pre
                          /\ Unlimited(cal) \/ cal.pre + n <= Free(cal)
(* a checked connection is refused exactly if no prefix of what is declared can be taken,
   or (types) a parameter that will get an argument has an annotation that says otherwise *)
Takes(n) == {m \in 0..n : Binds(cal, m)}
Longest(n) == CHOOSE m \in Takes(n) : \A k \in Takes(n) : k <= m
Contradicts(i) ==
  LET j == cal.pre + i
      Q == Positional(cal)
      t == IF j <= Len(Q) THEN Q[j].t
           ELSE IF Has(cal, "vp") THEN (CHOOSE p \in Range(cal.params) : p.k = "vp").t ELSE <<>> IN
  t # <<>> /\ decl[i] # <<>> /\ \A x \in Range(t), y \in Range(decl[i]) : x # y /\ <<x, y>> \notin Derived /\ y # "object"
Accepts == (last # <<"start">> /\ last[2][1] /\ last[3] < 0) =>
  (last[1] = "ok") = (Takes(Len(decl)) # {} /\ (last[2][2] => \A i \in 1..Longest(Len(decl)) : ~Contradicts(i)))
(* checks that are off refuse nothing *)
Loose == (last # <<"start">> /\ ~last[2][1] /\ ~last[2][2]) => last[1] = "ok"
(* what is called gets as much as it can take, or what was asked for; with fewer than it needs it fails *)
Prefix == \A i \in DOMAIN seen :
  (seen[i][3] # "") =>
    IF seen[i][1] # Len(decl) THEN seen[i][3] = "TypeError" /\ seen[i][2] = -1
    ELSE IF last[3] >= 0 THEN IF Binds(cal, MinOf2(last[3], seen[i][1])) THEN seen[i][2] = MinOf2(last[3], seen[i][1]) /\ seen[i][3] = "ok" ELSE seen[i][3] = "EmitLoopError"
    ELSE IF last[2][1] THEN seen[i][3] = "ok" /\ seen[i][2] = Longest(seen[i][1])
    ELSE IF Binds(cal, seen[i][1]) THEN seen[i][3] = "ok" /\ seen[i][2] = seen[i][1] ELSE seen[i][3] = "EmitLoopError" /\ seen[i][2] = -1
=============================================================================
