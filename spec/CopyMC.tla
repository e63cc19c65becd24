-------------------------------- MODULE CopyMC -------------------------------
(* Histories of objects with signals and of their copies: connections, held      *)
(* emissions, emissions (also nested), pickles and deep copies (also made by      *)
(* callbacks).  Calls are offered, right and wrong ones; what the specification   *)
(* accepts is judged by the ghosts: the connections of every signal as they were   *)
(* made or carried over (`conn`), the emissions every signal holds back (`kept`),   *)
(* and the calls that were to be made and were made (`want`, `got`).               *)
EXTENDS CopyCore, Bags

CONSTANTS Kind, NObj, NCon, NEmit, NSteps, Nested, Holds
VARIABLES st, conn, kept, want, got, n, cnt, touched
vars == <<st, conn, kept, want, got, n, cnt, touched>>

Names == CASE Kind = "own" -> <<"s", "t">> [] Kind = "grp" -> <<"a", "*">> [] Kind = "child" -> <<"child_event", "*", "0.s">>
Id(o, x) == <<o, x>>
O(i) == "o" \o ToString(i)
(* (signals are strings in the specification: they appear in arguments) *)
S(o, x) == o \o "." \o x
Objs == DOMAIN st.obj
AllS == {S(o, Names[i]) : o \in Objs, i \in DOMAIN Names}
Own(o) == {S(o, Names[i]) : i \in DOMAIN Names}
OwnerOf(s) == CHOOSE o \in Objs : s \in Own(o)
NameOf(s) == LET o == OwnerOf(s) IN Names[CHOOSE i \in DOMAIN Names : S(o, Names[i]) = s]
RelayOf(s) == IF (Kind = "grp" /\ NameOf(s) = "a") \/ (Kind = "child" /\ NameOf(s) = "child_event") THEN S(OwnerOf(s), "*") ELSE ""
ListOf(s) == IF Kind = "child" /\ NameOf(s) = "0.s" THEN S(OwnerOf(s), "child_event") ELSE ""
Props(x) == [name |-> x]
First == [o |-> O(1), kind |-> Kind, c |-> <<>>,
          sigs |-> [i \in DOMAIN Names |-> [id |-> S(O(1), Names[i]), n |-> Names[i], p |-> Props(Names[i]),
                                            relay |-> IF (Kind = "grp" /\ Names[i] = "a") \/ Names[i] = "child_event" THEN S(O(1), "*") ELSE "",
                                            list |-> IF Names[i] = "0.s" THEN S(O(1), "child_event") ELSE "",
                                            members |-> IF Names[i] = "*" THEN (IF Kind = "grp" THEN <<S(O(1), "a")>> ELSE <<S(O(1), "child_event")>>) ELSE <<>>]]]
Funs == {"f0", "f1", "w0"}
A(i) == <<ToString(i)>>

Init == /\ st = AddObj(InitSt(<<>>), First)
        /\ conn = [s \in {S(O(1), Names[i]) : i \in DOMAIN Names} |-> <<>>] /\ kept = [s \in {S(O(1), Names[i]) : i \in DOMAIN Names} |-> <<>>]
        /\ want = EmptyBag /\ got = EmptyBag /\ n = 0 /\ cnt = 0 /\ touched = O(1)

Do(e) == LET r == Step(st, e) IN r.ok /\ st' = r.st
Idle == st.fr = <<>>
InCb == st.fr # <<>> /\ Head(st.fr).t = "cb"
Steps == n < NSteps /\ n' = n + 1

(* connections: higher priorities first, older ones first among equals *)
Ins2(q, x) == LET k == Cardinality({i \in DOMAIN q : q[i].prio >= x.prio}) IN SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
NConn == LET RECURSIVE Sum(_) Sum(X) == IF X = {} THEN 0 ELSE LET s == CHOOSE x \in X : TRUE IN Len(conn[s]) + Sum(X \ {s}) IN Sum(Own(O(1)))
Con(s, f, prio, max) ==
  /\ Steps /\ Idle /\ NConn < NCon /\ \A i \in DOMAIN conn[s] : conn[s][i].f # f
  /\ Do([k |-> "con", sig |-> s, f |-> f, prio |-> prio, max |-> max, pre |-> <<>>, weak |-> f = "w0", local |-> FALSE])
  /\ conn' = [conn EXCEPT ![s] = Ins2(@, [f |-> f, prio |-> prio, max |-> max])]
  /\ touched' = OwnerOf(s) /\ UNCHANGED <<kept, want, got, cnt>>
Dis(s, f) ==
  /\ Steps /\ Idle /\ \E i \in DOMAIN conn[s] : conn[s][i].f = f
  /\ (Kind = "own" \/ NameOf(s) # "*")
  /\ Do([k |-> "dis", sig |-> s, f |-> f, r |-> "ok"])
  /\ conn' = [conn EXCEPT ![s] = SelectSeq(@, LAMBDA x : x.f # f)]
  /\ touched' = OwnerOf(s) /\ UNCHANGED <<kept, want, got, cnt>>

(* the calls an emission of s with the arguments a makes *)
RECURSIVE BagOf(_)
BagOf(q) == IF q = <<>> THEN EmptyBag ELSE SetToBag({Head(q)}) (+) BagOf(Tail(q))
Calls(s, a) == BagOf([i \in DOMAIN conn[s] |-> <<conn[s][i].f, IF conn[s][i].max < 0 THEN a ELSE <<>> >>])
Via(s, a) == IF RelayOf(s) = "" THEN EmptyBag ELSE IF st.sig[RelayOf(s)].paused THEN EmptyBag ELSE Calls(RelayOf(s), <<"@" \o s>> \o a)
Wants(s, a) == Calls(s, a) (+) Via(s, a)
  (+) (IF ListOf(s) = "" THEN EmptyBag ELSE LET l == ListOf(s) b == <<"child", "@" \o s>> \o a IN Calls(l, b) (+) Via(l, b))
Keep(k, s, a) == IF RelayOf(s) # "" /\ st.sig[RelayOf(s)].paused /\ conn[RelayOf(s)] # <<>> THEN [k EXCEPT ![RelayOf(s)] = Append(@, <<"@" \o s>> \o a)] ELSE k

Emit(s) ==
  /\ Steps /\ cnt < NEmit /\ cnt' = cnt + 1 /\ NameOf(s) \notin {"*", "child_event"}
  /\ Idle \/ (Nested /\ InCb /\ Len(st.fr) < 4)
  /\ Do([k |-> "emit", sig |-> s, a |-> A(cnt + 1)])
  /\ IF st.sig[s].blocked THEN UNCHANGED <<want, kept>>
     ELSE IF st.sig[s].paused THEN want' = want /\ kept' = [kept EXCEPT ![s] = Append(@, A(cnt + 1))]
     ELSE want' = want (+) Wants(s, A(cnt + 1)) /\ kept' = Keep(kept, s, A(cnt + 1))
  /\ touched' = OwnerOf(s) /\ UNCHANGED <<conn, got>>
Hold(s, w) ==
  /\ Holds /\ Steps /\ Idle /\ Kind # "child"
  /\ CASE w = "pause" -> ~st.sig[s].paused /\ ~st.sig[s].blocked
       [] w = "block" -> ~st.sig[s].paused /\ ~st.sig[s].blocked /\ NameOf(s) # "*"
       [] w = "unblock" -> st.sig[s].blocked
  /\ Do([k |-> "hold", sig |-> s, what |-> w]) /\ touched' = OwnerOf(s) /\ UNCHANGED <<conn, kept, want, got, cnt>>
Resume(s) ==
  /\ Holds /\ Steps /\ Idle /\ st.sig[s].paused
  /\ Do([k |-> "resume", sig |-> s])
  /\ LET q == kept[s]
         RECURSIVE All(_)
         All(i) == IF i > Len(q) THEN EmptyBag ELSE (IF NameOf(s) = "*" THEN Calls(s, q[i]) ELSE Wants(s, q[i])) (+) All(i + 1)
         RECURSIVE Kp(_, _)
         Kp(k, i) == IF i > Len(q) THEN k ELSE Kp(Keep(k, s, q[i]), i + 1) IN
     want' = want (+) All(1) /\ kept' = Kp([kept EXCEPT ![s] = <<>>], 1)
  /\ touched' = OwnerOf(s) /\ UNCHANGED <<conn, got, cnt>>

(* (a pickle, or a deep copy, of everything) *)
Copy(o, how) ==
  /\ Steps /\ Cardinality(Objs) < NObj
  /\ Idle \/ (Nested /\ InCb)
  /\ how = "deep" /\ Kind # "own" => \A s \in Own(o) : ~st.sig[s].paused /\ ~st.sig[s].blocked /\ st.sig[s].held = <<>>
  /\ LET new == O(Cardinality(Objs) + 1)
         To(a) == IF a = <<>> \/ \A i \in DOMAIN Names : a[1] # "@" \o S(o, Names[i]) THEN a
                  ELSE <<"@" \o S(new, Names[CHOOSE i \in DOMAIN Names : a[1] = "@" \o S(o, Names[i])])>> \o Tail(a)
         full(i) == how = "pickle" \/ Kind = "own" \/ Names[i] = "0.s"
         At(s) == CHOOSE i \in DOMAIN Names : S(new, Names[i]) = s
         N == {S(new, Names[i]) : i \in DOMAIN Names} IN
     /\ Do([k |-> "copy", o |-> o, new |-> new, how |-> how, only |-> FALSE, r |-> "ok", fresh |-> TRUE, eq |-> TRUE, warned |-> TRUE, sel |-> <<>>,
            map |-> [i \in DOMAIN Names |-> [n |-> Names[i], id |-> S(new, Names[i])]]])
     /\ conn' = [s \in N |-> IF full(At(s)) THEN SelectSeq(conn[S(o, Names[At(s)])], LAMBDA x : x.f # "w0") ELSE <<>>] @@ conn
     /\ kept' = [s \in N |-> IF full(At(s)) THEN [j \in DOMAIN kept[S(o, Names[At(s)])] |-> To(kept[S(o, Names[At(s)])][j])] ELSE <<>>] @@ kept
     /\ touched' = new /\ UNCHANGED <<want, got, cnt>>
(* offers: what could be called with which arguments *)
Args == {A(i) : i \in 1..cnt} \cup {<<>>} \cup {<<"@" \o s>> \o A(i) : s \in AllS, i \in 1..cnt}
        \cup (IF Kind # "child" THEN {} ELSE {<<"child", "@" \o S(o, "0.s")>> \o A(i) : o \in Objs, i \in 1..cnt} \cup {<<"@" \o S(o, "child_event"), "child", "@" \o S(p, "0.s")>> \o A(i) : o \in Objs, p \in Objs, i \in 1..cnt})
Called(f, a) == ~Idle /\ Do([k |-> "cb", f |-> f, a |-> a]) /\ got' = got (+) SetToBag({<<f, a>>}) /\ UNCHANGED <<conn, kept, want, n, cnt, touched>>
CbEnd == InCb /\ Do([k |-> "cbend"]) /\ UNCHANGED <<conn, kept, want, got, n, cnt, touched>>
Done == ~Idle /\ Do([k |-> "done", r |-> "ok", x |-> "ok"]) /\ UNCHANGED <<conn, kept, want, got, n, cnt, touched>>

Next == \/ \E s \in AllS, f \in Funs : (\E p \in {0, 1}, m \in {-1, 0} : (m = 0 => p = 0 /\ f = "f0" /\ NameOf(s) \in {"s", "0.s"}) /\ (p = 1 => f = "f1") /\ Con(s, f, p, m)) \/ Dis(s, f)
        \/ \E s \in AllS : Emit(s) \/ Resume(s) \/ \E w \in {"pause", "block", "unblock"} : Hold(s, w)
        \/ \E o \in Objs, how \in {"pickle", "deep"} : Copy(o, how)
        \/ \E f \in Funs, a \in Args : Called(f, a)
        \/ CbEnd \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* every call that was to be made is made, as often as it was to be made, and no other *)
Exactly == got \sqsubseteq want /\ (Idle => got = want)
(* the connections of originals and copies are those made and carried over, in their order *)
Conns == \A s \in AllS : [i \in DOMAIN st.sig[s].slots |-> <<st.sig[s].slots[i].f, st.sig[s].slots[i].prio, st.sig[s].slots[i].max>>] = [i \in DOMAIN conn[s] |-> <<conn[s][i].f, conn[s][i].prio, conn[s][i].max>>]
Kept == \A s \in AllS : Len(st.sig[s].held) = Len(kept[s])
(* an emission that is over leaves nothing to be done *)
CanEnd == (st.fr # <<>> /\ Head(st.fr).t # "cb") => (Head(st.fr).now # {} \/ Step(st, [k |-> "done", r |-> "ok", x |-> "ok"]).ok)
(* nothing that is done to one object changes another *)
Apart == [][\A s \in AllS : OwnerOf(s) # touched' => st'.sig[s] = st.sig[s]]_vars
(* a copy is like the original *)
Alike == \A s \in AllS : st.sig[s].p = Props(NameOf(s)) /\ st.sig[s].relay = RelayOf(s) /\ st.sig[s].list = ListOf(s)
=============================================================================
