------------------------------- MODULE OwnCore -------------------------------
(* Who owns which signal (C14): what an access of a declared signal or group   *)
(* gives, over objects and classes that come and go.                          *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Functions, TLC

InitSt(h) == [cls |-> <<>>, obj |-> <<>>, tok |-> <<>>, con |-> <<>>, todo |-> {}, emitting |-> FALSE]

Ok(st) == [ok |-> TRUE, st |-> st]
No(why) == [ok |-> FALSE, why |-> why]

Alive(st, o) == st.obj[o].alive
(* What name n means on object o: [d: the declaration, m: the member of the group (or ""), name]. *)
Meaning(st, e) ==
  LET c == st.cls[st.obj[e.o].cls] IN IF e.sup THEN c.supers[e.n] ELSE c.attrs[e.n]
Known(st, e) ==
  e.o \in DOMAIN st.obj /\ st.obj[e.o].cls \in DOMAIN st.cls
  /\ LET c == st.cls[st.obj[e.o].cls] IN e.n \in DOMAIN (IF e.sup THEN c.supers ELSE c.attrs)
Key(st, e) == LET m == Meaning(st, e) IN <<e.o, m.d, m.m>>
Owner(st, o) == IF Alive(st, o) \/ ~st.obj[o].weak THEN o ELSE ""

Access(st, e) ==
  LET m == Meaning(st, e) k == Key(st, e) IN
  IF ~Known(st, e) THEN No("unknown signal")
  ELSE IF e.name # m.name THEN No("name of the signal")
  ELSE IF e.owner # e.o THEN No("owner of the signal")
  ELSE IF k \in DOMAIN st.tok
  THEN IF st.tok[k] = e.tok THEN Ok(st) ELSE No("another signal than before")
  ELSE IF \E x \in DOMAIN st.tok : st.tok[x] = e.tok THEN No("signal of another object or declaration")
  ELSE Ok([st EXCEPT !.tok = @ @@ (k :> e.tok)])

KeyOf(st, t) == CHOOSE k \in DOMAIN st.tok : st.tok[k] = t
Has(st, t) == \E k \in DOMAIN st.tok : st.tok[k] = t
Con(st, k) == IF k \in DOMAIN st.con THEN st.con[k] ELSE {}
SetCon(st, k, s) == [st EXCEPT !.con = (k :> s) @@ @]

(* Who hears of an emission of the signal with key k: its callbacks, and those of its group. *)
Hears(st, k) == {<<i, "">> : i \in Con(st, k)} \cup (IF k[3] = "" THEN {} ELSE {<<i, k[3]>> : i \in Con(st, <<k[1], k[2], "">>)})

Quiet(st) == st.todo = {} /\ ~st.emitting
Step(st, e) ==
  CASE e.k = "class" -> Ok([st EXCEPT !.cls = (e.cls :> e.spec) @@ @])
    [] e.k = "look" ->  \* access through the class
        LET c == st.cls[e.cls] IN
        IF e.is # (IF e.sup THEN c.supers[e.n].d ELSE c.attrs[e.n].d) THEN No("not the declaration") ELSE Ok(st)
    [] e.k = "new" -> Ok([st EXCEPT !.obj = (e.o :> [cls |-> e.cls, alive |-> TRUE, held |-> TRUE, weak |-> st.cls[e.cls].weak]) @@ @])
    [] e.k = "acc" -> IF ~Quiet(st) THEN No("callbacks were not called") ELSE Access(st, e)
    [] e.k = "members" ->
        IF Range(e.names) # Range(st.cls[st.obj[e.o].cls].groups[e.n]) THEN No("members of the group") ELSE Ok(st)
    [] e.k = "owner" -> IF ~Has(st, e.tok) THEN No("unknown signal") ELSE IF e.owner # Owner(st, KeyOf(st, e.tok)[1]) THEN No("owner of the signal") ELSE Ok(st)
    [] e.k = "connect" -> IF ~Has(st, e.tok) THEN No("unknown signal")
                          ELSE LET k == KeyOf(st, e.tok) IN Ok(SetCon(st, k, Con(st, k) \cup {e.id}))
    [] e.k = "disconnect" -> LET k == KeyOf(st, e.tok) IN Ok(SetCon(st, k, Con(st, k) \ {e.id}))
    [] e.k = "count" -> IF ~Has(st, e.tok) THEN No("unknown signal")
                        ELSE IF e.n # Cardinality(Con(st, KeyOf(st, e.tok))) THEN No("number of callbacks") ELSE Ok(st)
    [] e.k = "emit" -> IF ~Quiet(st) THEN No("callbacks were not called")
                       ELSE IF ~Has(st, e.tok) THEN No("unknown signal")
                       ELSE Ok([st EXCEPT !.todo = Hears(st, KeyOf(st, e.tok)), !.emitting = TRUE])
    [] e.k = "cb" -> IF <<e.id, e.m>> \in st.todo THEN Ok([st EXCEPT !.todo = @ \ {<<e.id, e.m>>}])
                     ELSE No("a callback of another signal, or twice")
    [] e.k = "done" -> IF st.todo # {} THEN No("callbacks were not called") ELSE Ok([st EXCEPT !.emitting = FALSE])
    [] e.k = "drop" -> Ok([st EXCEPT !.obj[e.o].held = FALSE])
    [] e.k = "dead" -> IF st.obj[e.o].held THEN No("an object died that is in use") ELSE Ok([st EXCEPT !.obj[e.o].alive = FALSE])
    [] e.k = "dropcls" -> Ok([st EXCEPT !.cls = [c \in (DOMAIN @) \ {e.cls} |-> @[c]]])
    [] e.k = "free" ->  \* after a collection
        IF \E o \in DOMAIN st.obj : ~st.obj[o].held /\ st.obj[o].weak /\ Alive(st, o) THEN No("an object is kept alive") ELSE Ok(st)
    [] e.k = "end" -> IF Quiet(st) THEN Ok(st) ELSE No("callbacks were not called")
    [] OTHER -> No("unexpected: " \o ToString(e))
=============================================================================
