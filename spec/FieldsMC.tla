------------------------------- MODULE FieldsMC -------------------------------
(* All short programs of assignments, updates and resets, with callbacks that *)
(* assign again or raise.  What is announced is compared with what the        *)
(* content of the objects says, without looking at how it came about.         *)
EXTENDS FieldsCore

CONSTANTS
  Classes,    \* the header
  Objs,       \* the objects: sequence of [o, cls, v]
  Subscribe,  \* sets of listeners to begin with: sequences of [o, sig, group, id]
  Sets,       \* what is assigned: [o, n, v]
  Updates,    \* [o, items, rec]
  Resets,     \* objects that are reset
  NOps, NNested, NBoom
VARIABLES st, g, lim
vars == <<st, g, lim>>

MCHdr(h) == Classes
Started(subs) ==
  LET s0 == FoldLeft(LAMBDA s, x : New(s, x), InitSt(1), Objs)
  IN FoldLeft(LAMBDA s, x : Listen(s, x @@ [on |-> TRUE]), s0, subs)
NoG == [op |-> [k |-> ""], before |-> <<>>, told |-> <<>>, pure |-> TRUE, kinds |-> {}]

Init == \E subs \in Subscribe :
          /\ st = Started(subs)
          /\ g = NoG
          /\ lim = [ops |-> NOps, nested |-> NNested, boom |-> NBoom, subs |-> Range(subs)]

Top == Head(st.stack)
Running == st.stack # <<>>
At(f) == Running /\ Top.f = f

Ops == {[k |-> "set"] @@ x : x \in Sets}
       \cup (IF Running THEN {} ELSE {[k |-> "update"] @@ x : x \in Updates} \cup {[k |-> "reset", o |-> o] : o \in Resets})

Do(e) ==
  LET r == Step(st, e) IN
  /\ r.ok
  /\ st' = r.st
  /\ g' = IF Running THEN [g EXCEPT !.pure = FALSE] ELSE [NoG EXCEPT !.op = e, !.before = st]
  /\ lim' = IF Running THEN [lim EXCEPT !.nested = @ - 1] ELSE [lim EXCEPT !.ops = @ - 1]

Operate == /\ (Idle(st)) = TRUE
           /\ IF Running THEN lim.nested > 0 ELSE lim.ops > 0
           /\ \E e \in Ops : Do(e)

(* what may be told next: any callback of the class, any signal; the arguments follow *)
Ids == {x.id : x \in lim.subs}
Told(o, id, s, args) == [k |-> "cb", id |-> id, o |-> o, sig |-> s, one |-> FALSE, args |-> args, cur |-> Content(st, o)]
Pending ==
  CASE ~Running -> {}
    [] Top.f = "M" -> {<<Top.o, m.sig, m.args>> : m \in Top.pend}
    [] Top.f = "H" -> {<<Top.o, Top.q[i].m.sig, Top.q[i].m.args>> : i \in DOMAIN Top.q}
    [] Top.f = "E" -> {<<Top.o, Top.m.sig, Top.m.args>>}
    [] OTHER -> {}
Tell == \E x \in Pending, id \in Ids :
          LET r == Step(st, Told(x[1], id, x[2], x[3])) IN
          /\ r.ok
          /\ st' = r.st
          /\ g' = [g EXCEPT !.told = Append(@, <<x[1], x[2], id, x[3]>>), !.kinds = @ \cup {Top.f}]
          /\ UNCHANGED lim

CbEnd == /\ At("K")
         /\ \E r \in {"ok", "boom"} :
              /\ r = "boom" => lim.boom > 0
              /\ LET s == Step(st, [k |-> "cbend", r |-> r]) IN s.ok /\ st' = s.st
              /\ lim' = IF r = "boom" THEN [lim EXCEPT !.boom = @ - 1] ELSE lim
              /\ g' = IF r = "boom" THEN [g EXCEPT !.pure = FALSE] ELSE g
Ret == /\ Running
       /\ LET s0 == Skip(st) IN
          /\ s0.stack # <<>> /\ Head(s0.stack).f = "T"
          /\ LET s == Step(st, [k |-> "ret", r |-> Head(s0.stack).r, all |-> Contents(s0)]) IN
             /\ s.ok
             /\ st' = IF Len(s.st.stack) > 0 /\ Head(s0.stack).r = "loop" THEN Step(s.st, [k |-> "cbend", r |-> "boom"]).st ELSE s.st
          /\ g' = IF Len(s0.stack) = 1 THEN [g EXCEPT !.op = @ @@ [r |-> Head(s0.stack).r]] ELSE g
          /\ UNCHANGED lim
Next == Operate \/ Tell \/ CbEnd \/ Ret
Spec == Init /\ [][Next]_vars

(* ---- what must be so *)
Done == st.stack = <<>> /\ g.op.k # ""
B == g.before
Changed(o, n) == ~EqV(st, Attr(st, o, n).cmp, Get(st, o, n), Get(B, o, n))
Differs(o, n) == Get(st, o, n) # Get(B, o, n)
(* who hears of signal s of o *)
Hearers(o, s) == {x.id : x \in {x \in lim.subs : x.o = o /\ (x.sig = s \/ (x.sig = "" /\ x.group = Group(st, o, s)))}}
Count(o, s, id) == Cardinality({i \in DOMAIN g.told : g.told[i][1] = o /\ g.told[i][2] = s /\ g.told[i][3] = id})
Args(o, n) == IF Cls(st, o).old THEN <<Get(st, o, n), Get(B, o, n)>> ELSE <<Get(st, o, n)>>
AttrsOf(o, s) == {n \in Names(st, o) : s \in Range(Attr(st, o, n).sigs)}
Assigned(o, n) == g.op.k = "set" /\ g.op.o = o /\ g.op.n = n
IsField(o, n) == Attr(st, o, n).kind = "field"
(* properties announce when they depend on what changed, or are themselves assigned *)
Due(o, n) == Changed(o, n) /\ (IsField(o, n) \/ Assigned(o, n) \/ \E f \in Names(st, o) : IsField(o, f) /\ Changed(o, f) /\ n \in Deps(st, o, f))

(* A plain assignment: told exactly what changed, with the values before and after. *)
TypeOK == \A o \in DOMAIN st.obj : \A n \in DOMAIN st.obj[o].val : Len(Val(st, o, n)) > 0
Exactly ==
  (Done /\ g.pure /\ g.op.k = "set" /\ g.op.r = "ok") =>
    \A o \in DOMAIN st.obj : \A s \in DOMAIN st.obj[o].slots : \A id \in Ids :
      LET due == \E n \in AttrsOf(o, s) : Due(o, n) IN
      /\ Count(o, s, id) = (IF due /\ id \in Hearers(o, s) THEN 1 ELSE 0)
      /\ due => \A i \in DOMAIN g.told : (g.told[i][1] = o /\ g.told[i][2] = s) => \E n \in AttrsOf(o, s) : g.told[i][4] = Args(o, n)
(* A refused assignment changes nothing and tells nothing; *)
Refused ==
  (Done /\ g.pure /\ g.op.k = "set" /\ g.op.r = "err") =>
     \/ Contents(st) = Contents(B) /\ g.told = <<>>
     \/ Attr(st, g.op.o, g.op.n).kind = "prop"  \* (a property may have assigned part of it)
(* and an accepted one stores what the plain class would. *)
Stored ==
  (Done /\ g.pure /\ g.op.k = "set" /\ g.op.r = "ok" /\ IsField(g.op.o, g.op.n)) =>
     /\ ~IsObj(g.op.v) => Val(st, g.op.o, g.op.n) = <<Attr(st, g.op.o, g.op.n).conv[g.op.v[1]]>>
     /\ \A o \in DOMAIN st.obj : \A n \in Names(st, o) : (IsField(o, n) /\ ~(o = g.op.o /\ n = g.op.n)) => ~Differs(o, n)

(* Several fields at once: as if assigned one by one; *)
RECURSIVE OneByOne(_, _, _, _)
OneByOne(s, o, items, rec) ==
  IF items = <<>> THEN s
  ELSE LET it == Head(items) cur == Get(s, o, it.n) IN
       OneByOne(IF it.sub /\ rec /\ IsObj(cur) THEN OneByOne(s, cur[2], it.v, rec)
                ELSE IF Attr(s, o, it.n).kind = "field" THEN Put(s, o, it.n, <<Attr(s, o, it.n).conv[it.v[1]]>>)
                ELSE IF Attr(s, o, it.n).set = "tuple"
                THEN LET of == Attr(s, o, it.n).of IN
                     FoldLeft(LAMBDA x, i : Put(x, o, of[i], <<Attr(s, o, of[i]).conv[it.v[i + 1]]>>), s, [i \in DOMAIN of |-> i])
                ELSE Put(s, o, Attr(s, o, it.n).of[1], <<Attr(s, o, Attr(s, o, it.n).of[1]).conv[it.v[1]]>>), o, Tail(items), rec)
Many == g.op.k \in {"update", "reset"}
ItemsOf == IF g.op.k = "update" THEN g.op.items ELSE Cls(st, g.op.o).reset
Together ==
  (Done /\ g.pure /\ Many /\ g.op.r = "ok") =>
     LET want == OneByOne(B, g.op.o, ItemsOf, IF g.op.k = "update" THEN g.op.rec ELSE TRUE) IN
     /\ Contents(st) = Contents(want)
     /\ \A o \in DOMAIN st.obj : \A n \in Names(st, o) : \A s \in Range(Attr(st, o, n).sigs) : \A id \in Hearers(o, s) :
          /\ (IsField(o, n) /\ Changed(o, n)) => Count(o, s, id) >= 1
          /\ (IsField(o, n) /\ ~Differs(o, n) /\ g.op.k = "reset") => Count(o, s, id) = 0
(* listeners of the whole model only hear of an update when everything is stored. *)
Last1 == g.told[Len(g.told)]
GroupId(id) == \E x \in lim.subs : x.id = id /\ x.sig = ""
AfterAll ==
  (g.pure /\ g.op.k = "update" /\ Running /\ At("K") /\ GroupId(Last1[3]) /\ \A i \in DOMAIN g.op.items : g.op.items[i].v # <<"bad">>) =>
     Content(st, g.op.o) = Content(OneByOne(B, g.op.o, g.op.items, g.op.rec), g.op.o)

Follows(o, n) == IsField(o, n) \/ \E f \in Names(st, o) : n \in Deps(st, o, f)
(* (what was held back during an update may be overtaken while it is told) *)
(* When later emissions replace earlier ones, the last thing anybody heard is true. *)
LastTrue ==
  (Done /\ lim.boom = NBoom /\ g.op.r # "loop" /\ "H" \notin g.kinds) =>
    \A i \in DOMAIN g.told :
      LET o == g.told[i][1] s == g.told[i][2] id == g.told[i][3] IN
      (Cls(st, o).latest /\ \A j \in i + 1..Len(g.told) : <<g.told[j][1], g.told[j][2], g.told[j][3]>> # <<o, s, id>>)
      => \E n \in AttrsOf(o, s) : ~Follows(o, n) \/ g.told[i][4][1] = Get(st, o, n) \/ EqV(st, Attr(st, o, n).cmp, g.told[i][4][1], Get(st, o, n))
(* Nothing is left over: no delayed comparison, no paused group, nothing held back. *)
Clean ==
  st.stack = <<>> =>
    \A o \in DOMAIN st.obj : /\ st.obj[o].delay = 0 /\ st.obj[o].queue = <<>> /\ st.obj[o].prim = {}
                              /\ \A k \in DOMAIN st.obj[o].paused : st.obj[o].paused[k] = 0 /\ st.obj[o].held[k] = <<>>
(* Something can always happen: nobody waits for something that never comes. *)
Live == Running => ENABLED (Tell \/ CbEnd \/ Ret)
===============================================================================
