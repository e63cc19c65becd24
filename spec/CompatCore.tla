------------------------------ MODULE CompatCore -----------------------------
(* Which callbacks a signal accepts, and what they are called with (C08).      *)
(*                                                                             *)
(* A callable is [params: sequence of [n: name, k: kind, d: has a default,     *)
(* t: annotation], pre: number of positional arguments that are bound already  *)
(* (self, partial), kws: names that are bound by keyword].  Kinds are "po"     *)
(* (positional only), "pk" (positional or keyword), "vp" (varargs), "ko"       *)
(* [keyword only], "vk" [other keywords].  An annotation (or declared type) is the   *)
(* sequence of the classes it stands for, empty if there is none (or it does   *)
(* not tell).                                                                  *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC

Positional(c) == SelectSeq(c.params, LAMBDA p : p.k \in {"po", "pk"})
Has(c, k) == \E i \in DOMAIN c.params : c.params[i].k = k
Bound(c, x) == \E i \in DOMAIN c.kws : c.kws[i] = x

(* Python's rules: does a call with n more positional arguments bind? *)
CanCall(c, n) ==
  LET P == Positional(c)
      tot == c.pre + n IN
  /\ tot <= Len(P) \/ Has(c, "vp")
  /\ \A i \in DOMAIN c.kws :
       LET x == c.kws[i]
           named == {j \in DOMAIN c.params : c.params[j].n = x /\ c.params[j].k \in {"pk", "ko"}} IN
       IF named = {} THEN Has(c, "vk")
       ELSE \A j \in DOMAIN P : (P[j].n = x /\ P[j].k = "pk") => j > tot
  /\ \A j \in DOMAIN P : j <= tot \/ P[j].d \/ (P[j].k = "pk" /\ Bound(c, P[j].n))
  /\ \A j \in DOMAIN c.params : c.params[j].k = "ko" => (c.params[j].d \/ Bound(c, c.params[j].n))

Fits(c, d) == {n \in 0..d : CanCall(c, n)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf2(a, b) == IF a < b THEN a ELSE b

(* Types *)
Derived == {<<"bool", "int">>, <<"B", "A">>}
SubClass(a, b) == a = b \/ b = "object" \/ <<a, b>> \in Derived
Agree(t, d) == t = <<>> \/ d = <<>> \/ \E i \in DOMAIN t : \E j \in DOMAIN d : SubClass(t[i], d[j])
(* the annotation of the parameter that receives the i-th argument (what follows a *)
(* parameter that is bound by name receives none)                                *)
Receives(c, i) ==
  LET P == Positional(c) j == c.pre + i IN
  IF j <= Len(P) THEN IF \E k \in 1..j : Bound(c, P[k].n) THEN <<>> ELSE P[j].t
  ELSE IF Has(c, "vp") /\ ~\E k \in DOMAIN P : Bound(c, P[k].n) THEN (SelectSeq(c.params, LAMBDA p : p.k = "vp"))[1].t ELSE <<>>
TypesAgree(c, decl, m) == \A i \in 1..(IF m < 0 THEN Len(decl) ELSE MinOf2(m, Len(decl))) : Agree(Receives(c, i), decl[i])

(* What becomes of a connection: is it accepted, and is the number of arguments    *)
(* limited: to max, to what fits (FIT), or not at all (ALL).                       *)
ALL == -1
FIT == -2
Decide(c, decl, max, nargs, types) ==
  LET S == Fits(c, Len(decl))
      counted == nargs /\ max < 0 IN
  IF counted /\ S = {} THEN [ok |-> FALSE, max |-> 0]
  ELSE LET m == IF ~counted THEN max ELSE MaxOf(S) IN
       [ok |-> types => TypesAgree(c, decl, m), max |-> IF counted THEN FIT ELSE max]

(* how many of n arguments a callback is given *)
Given(s, n) ==
  CASE s.max = ALL -> n
    [] s.max = FIT -> LET S == Fits(s.cal, n) IN IF S = {} THEN n ELSE MaxOf(S)
    [] OTHER -> MinOf2(s.max, n)

(* Are the arguments what the signal is declared to emit? *)
CountFits(sg, n) == sg.req <= n /\ n <= Len(sg.decl)
TypesFit(sg, args) == \A i \in 1..MinOf2(Len(args), Len(sg.decl)) : Agree(args[i], sg.decl[i])

----------------------------------------------------------------------------
None == [decl |-> <<>>, req |-> 0, nargs |-> TRUE, types |-> FALSE]
InitSt(h) == [sig |-> None, slots |-> <<>>, paused |-> FALSE, held |-> <<>>, queue |-> <<>>, run |-> <<>>, busy |-> ""]
Ok(st) == [ok |-> TRUE, st |-> st]
No(why) == [ok |-> FALSE, why |-> why]
Yes(x, dflt) == IF x = "" THEN dflt ELSE x = "y"

(* calls that are due: <<slot, number of arguments, drained>> *)
RECURSIVE Norm(_)
(* those for other threads are put into the queue *)
Norm(st) ==
  IF st.run # <<>> /\ Head(st.run)[1].queued /\ ~Head(st.run)[3]
  THEN Norm([st EXCEPT !.queue = Append(@, [Head(st.run) EXCEPT ![3] = TRUE]), !.run = Tail(@)])
  ELSE st
Fire(st, n) == [st EXCEPT !.run = @ \o [i \in DOMAIN st.slots |-> <<st.slots[i], n, FALSE>>]]
RECURSIVE FireAll(_, _)
FireAll(st, ns) == IF ns = <<>> THEN st ELSE FireAll(Fire(st, Head(ns)), Tail(ns))

Names(n) == [i \in 1..n |-> "a" \o ToString(i)]
Runs(x) == x[1].set \/ CanCall(x[1].cal, Given(x[1], x[2]))

Connect(st, e) ==
  LET m == Decide(e.cal, st.sig.decl, e.max, Yes(e.nargs, st.sig.nargs), Yes(e.types, st.sig.types))
      s == [id |-> e.id, cal |-> e.cal, max |-> IF e.set THEN e.max ELSE m.max, queued |-> e.queued, set |-> e.set]
      t == IF e.set \/ m.ok THEN [st EXCEPT !.slots = Append(@, s)] ELSE st IN
  IF e.r = "ok" /\ ~(e.set \/ m.ok) THEN No("an unfit callback was accepted")
  ELSE IF e.r # "ok" /\ (e.set \/ m.ok) THEN No("a fit callback was refused")
  ELSE IF e.r \notin {"ok", "ValueError"} THEN No("wrong exception")
  ELSE IF e.len # Len(t.slots) THEN No("number of callbacks") ELSE Ok(t)

Emit(st, e) ==
  LET bad == (e.cn /\ ~CountFits(st.sig, Len(e.args))) \/ (e.ct /\ ~TypesFit(st.sig, e.args)) IN
  IF bad THEN Ok([st EXCEPT !.busy = "refused"])
  ELSE IF st.paused THEN Ok([st EXCEPT !.held = Append(@, Len(e.args)), !.busy = "emit"])
  ELSE Ok(Norm([Fire(st, Len(e.args)) EXCEPT !.busy = "emit"]))

Step(st, e) ==
  CASE e.k = "sig" -> Ok([InitSt(<<>>) EXCEPT !.sig = [decl |-> e.decl, req |-> e.req, nargs |-> e.nargs, types |-> e.types]])
    [] e.k = "con" -> IF st.busy # "" THEN No("inside an emission") ELSE Connect(st, e)
    [] e.k = "emit" -> IF st.busy # "" THEN No("inside an emission") ELSE Emit(st, e)
    [] e.k = "pause" -> Ok([st EXCEPT !.paused = TRUE])
    [] e.k = "resume" -> Ok(Norm([FireAll([st EXCEPT !.paused = FALSE, !.held = <<>>], st.held) EXCEPT !.busy = "emit"]))
    [] e.k = "drain" -> Ok([st EXCEPT !.run = @ \o st.queue, !.queue = <<>>, !.busy = "emit"])
    [] e.k = "cb" ->
        IF st.busy = "refused" THEN No("a callback ran although the arguments do not fit")
        ELSE IF st.run = <<>> THEN No("a callback too many")
        ELSE LET x == Head(st.run) IN
             IF x[1].id # e.id THEN No("another callback was due")
             ELSE IF ~Runs(x) THEN No("a callback ran that cannot be called so")
             ELSE IF e.a # Names(Given(x[1], x[2])) THEN No("arguments of the callback")
             ELSE Ok(Norm([st EXCEPT !.run = Tail(@)]))
    [] e.k = "done" ->
        LET due == st.run # <<>>
            r == IF st.busy = "refused" THEN "TypeError" ELSE IF due /\ ~Runs(Head(st.run)) THEN "EmitLoopError" ELSE "ok" IN
        IF due /\ Runs(Head(st.run)) THEN No("a callback was not called")
        ELSE IF e.r # r THEN No("outcome of the emission")
        ELSE Ok([st EXCEPT !.busy = "", !.run = <<>>])
    [] e.k = "end" -> IF st.busy = "" THEN Ok(st) ELSE No("did not return")
    [] OTHER -> No("unexpected: " \o ToString(e))
=============================================================================
