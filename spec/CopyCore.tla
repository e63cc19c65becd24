------------------------------- MODULE CopyCore ------------------------------
(* Pickles and copies of signals, groups, containers and models (C24).         *)
(*                                                                             *)
(* A signal has its properties (name, description, signature, modes), its      *)
(* slots, and what was held back.  An object has signals, maybe a relay (of its  *)
(* group), and a content.  A pickle is a new object with the same properties,    *)
(* content, and those slots that are plain functions; so is the deep copy of a   *)
(* signal or of an object with signals.  Copies of groups, containers and models *)
(* start without connections.                                                  *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC

Ok(st) == [ok |-> TRUE, st |-> st]
No(why) == [ok |-> FALSE, why |-> why]
InitSt(h) == [sig |-> <<>>, obj |-> <<>>, fr |-> <<>>]

(* slot: f, prio, max (-1: no limit), pre (bound arguments), weak, local (can't be pickled) *)
NewSig(x) == [p |-> x.p, slots |-> <<>>, blocked |-> FALSE, paused |-> FALSE, held |-> <<>>, relay |-> x.relay, list |-> x.list, members |-> x.members, was |-> <<>>]
AddObj(st, e) ==
  [st EXCEPT !.sig = [s \in {e.sigs[i].id : i \in DOMAIN e.sigs} |-> NewSig(e.sigs[CHOOSE i \in DOMAIN e.sigs : e.sigs[i].id = s])] @@ @,
             !.obj = (e.o :> [kind |-> e.kind, n |-> [x \in {e.sigs[i].n : i \in DOMAIN e.sigs} |-> e.sigs[CHOOSE i \in DOMAIN e.sigs : e.sigs[i].n = x].id],
                              c |-> e.c, sel |-> {}]) @@ @]
Sid(st, o, n) == st.obj[o].n[n]
Sids(st, o) == {st.obj[o].n[x] : x \in DOMAIN st.obj[o].n}

RECURSIVE Put1(_, _)
Put1(q, s) == IF q = <<>> THEN <<s>> ELSE IF Head(q).prio < s.prio THEN <<s>> \o q ELSE <<Head(q)>> \o Put1(Tail(q), s)

----------------------------------------------------------------------------
(* copies *)
Keeps(st, o, how) == how = "pickle" \/ (how = "deep" /\ st.obj[o].kind \in {"sig", "own"})
Strong(q) == SelectSeq(q, LAMBDA s : ~s.weak)
Local(st, o) == \E s \in Sids(st, o) : \E i \in DOMAIN st.sig[s].slots : ~st.sig[s].slots[i].weak /\ st.sig[s].slots[i].local
Weak(st, o) == \E s \in Sids(st, o) : \E i \in DOMAIN st.sig[s].slots : st.sig[s].slots[i].weak
(* e.map: the signals of the copy, by name; e.o may be a signal of an object only *)
Copied(st, o, e) ==
  LET new == [n \in {e.map[i].n : i \in DOMAIN e.map} |-> e.map[CHOOSE i \in DOMAIN e.map : e.map[i].n = n].id]
      old == [i \in {new[n] : n \in DOMAIN new} |-> Sid(st, o, CHOOSE n \in DOMAIN new : new[n] = i)]
      To(s) == IF s = "" THEN "" ELSE LET n == CHOOSE x \in DOMAIN st.obj[o].n : st.obj[o].n[x] = s IN IF n \in DOMAIN new THEN new[n] ELSE ""
      One(i) == LET x == st.sig[old[i]] IN
                IF Keeps(st, o, e.how) \/ x.list # ""  (* (items of lists are objects with signals) *)
                THEN [x EXCEPT !.slots = Strong(@), !.relay = To(@), !.list = To(@), !.members = [j \in DOMAIN @ |-> To(x.members[j])],
                               !.held = [j \in DOMAIN @ |-> IF x.members = <<>> THEN x.held[j] ELSE <<To(x.held[j][1])>> \o Tail(x.held[j])],
                               !.was = [m \in {To(y) : y \in DOMAIN @} |-> x.was[CHOOSE y \in DOMAIN x.was : To(y) = m]]]
                ELSE [x EXCEPT !.slots = <<>>, !.blocked = FALSE, !.paused = FALSE, !.held = <<>>, !.was = <<>>,
                               !.relay = To(@), !.list = To(@), !.members = [j \in DOMAIN @ |-> To(x.members[j])]] IN
  [st EXCEPT !.sig = [i \in DOMAIN old |-> One(i)] @@ @,
             !.obj = (e.new :> [st.obj[o] EXCEPT !.n = new, !.kind = IF e.only THEN "sig" ELSE @, !.sel = Range(e.sel)]) @@ @]

----------------------------------------------------------------------------
(* emissions: frames of chains of calls; the calls of a chain are made in order *)
Call(s, a) == [f |-> s.f, a |-> IF s.max < 0 THEN s.pre \o a ELSE s.pre \o SubSeq(a, 1, IF s.max < Len(a) THEN s.max ELSE Len(a))]
Chain(st, s, a) == [i \in DOMAIN st.sig[s].slots |-> Call(st.sig[s].slots[i], a)]
(* one emission after the other: what is due is a sequence of sets of chains *)
RECURSIVE Norm(_)
Norm(st) ==
  IF st.fr # <<>> /\ Head(st.fr).now = {} /\ Head(st.fr).next # <<>>
  THEN LET x == Head(Head(st.fr).next)
           t == [st EXCEPT !.fr[1].next = Tail(@)]
           g == st.sig[x[1]] IN
       IF g.blocked THEN Norm(t)
       ELSE IF g.paused THEN Norm([t EXCEPT !.sig[x[1]].held = Append(@, x[2])])
       ELSE LET own == Chain(st, x[1], x[2])
                via == IF g.relay = "" THEN <<>> ELSE IF st.sig[g.relay].paused THEN <<>> ELSE Chain(st, g.relay, <<"@" \o x[1]>> \o x[2])
                lst == IF g.list = "" THEN <<>> ELSE Chain(st, g.list, <<"child", "@" \o x[1]>> \o x[2])
                up == IF g.list = "" \/ st.sig[g.list].relay = "" THEN <<>> ELSE Chain(st, st.sig[g.list].relay, <<"@" \o g.list, "child", "@" \o x[1]>> \o x[2])
                keep == IF g.relay # "" /\ st.sig[g.relay].paused /\ st.sig[g.relay].slots # <<>> THEN [t EXCEPT !.sig[g.relay].held = Append(@, <<x[1]>> \o x[2])] ELSE t IN
            Norm([keep EXCEPT !.fr[1].now = {<<"own", own>>, <<"via", via>>, <<"list", lst>>, <<"up", up>>} \ {<<k, <<>>>> : k \in {"own", "via", "list", "up"}}])
  ELSE st
Push(st, t, q) == Norm([st EXCEPT !.fr = <<[t |-> t, now |-> {}, next |-> q]>> \o @])
(* a group that is resumed *)
PushRelay(st, r, q) == [st EXCEPT !.fr = <<[t |-> "emit", now |-> IF q = <<>> \/ st.sig[r].slots = <<>> THEN {} ELSE {<<"via", FlattenSeq([i \in DOMAIN q |-> Chain(st, r, <<"@" \o q[i][1]>> \o Tail(q[i]))])>>}, next |-> <<>>]>> \o @]

(* contents, and what is announced *)
T(x) == ToString(x)
One(x) == "(" \o T(x) \o ",)"
Keys(c) == {c[i][1] : i \in DOMAIN c}
Val(c, k) == c[CHOOSE i \in DOMAIN c : c[i][1] = k][2]
Index(c, v) == CHOOSE i \in DOMAIN c : c[i] = v
Effect(b, e) ==
  LET c == b.c IN
  CASE e.op = "append" -> [c |-> Append(c, e.v), sel |-> {e.v}, ev |-> <<<<"inserting", <<T(Len(c))>>>>, <<"inserted", <<T(Len(c)), T(e.v)>>>>>>]
    [] e.op = "pop" -> [c |-> Tail(c), sel |-> b.sel \ {Head(c)}, ev |-> <<<<"removing", <<"0">>>>, <<"removed", <<"0", T(Head(c))>>>>>>]
    [] e.op = "put" -> [c |-> <<e.v>> \o Tail(c), sel |-> b.sel \ {Head(c)}, ev |-> <<<<"changing", <<"0">>>>, <<"changed", <<"0", T(Head(c)), T(e.v)>>>>>>]
    [] e.op = "select" -> [c |-> c, sel |-> b.sel \cup {e.v}, ev |-> <<>>]
    [] e.op = "set" -> IF e.key \in Keys(c)
                       THEN [c |-> [i \in DOMAIN c |-> IF c[i][1] = e.key THEN <<e.key, e.v>> ELSE c[i]], sel |-> {},
                             ev |-> <<<<"changing", <<e.key>>>>, <<"changed", <<e.key, T(Val(c, e.key)), T(e.v)>>>>>>]
                       ELSE [c |-> Append(c, <<e.key, e.v>>), sel |-> {}, ev |-> <<<<"adding", <<e.key>>>>, <<"added", <<e.key, T(e.v)>>>>>>]
    [] e.op = "del" -> [c |-> SelectSeq(c, LAMBDA x : x[1] # e.key), sel |-> {}, ev |-> <<<<"removing", <<e.key>>>>, <<"removed", <<e.key, T(Val(c, e.key))>>>>>>]
    [] e.op = "add" -> IF e.v \in Range(c) THEN [c |-> c, sel |-> {}, ev |-> <<>>] ELSE [c |-> Append(c, e.v), sel |-> {}, ev |-> <<<<"items_changed", <<One(e.v), "()">>>>>>]
    [] e.op = "discard" -> IF e.v \notin Range(c) THEN [c |-> c, sel |-> {}, ev |-> <<>>]
                           ELSE [c |-> SelectSeq(c, LAMBDA x : x # e.v), sel |-> {}, ev |-> <<<<"items_changed", <<"()", One(e.v)>>>>>>]
    [] e.op = "field" -> [c |-> [i \in DOMAIN c |-> IF c[i][1] = e.key THEN <<e.key, e.v>> ELSE c[i]], sel |-> {},
                          ev |-> <<<<e.key, IF b.kind = "model" THEN <<T(e.v)>> ELSE <<T(e.v), T(Val(c, e.key))>>>>>>]
    (* (refused: nothing happens) *)
    [] e.op = "bad" -> [c |-> c, sel |-> b.sel, ev |-> <<>>]

SameContent(b, c) == IF b.kind = "set" THEN Len(b.c) = Len(c) /\ Range(b.c) = Range(c) ELSE b.c = c
NSlots(st, s) == Len(st.sig[s].slots) + (IF st.sig[s].relay # "" /\ st.sig[st.sig[s].relay].slots # <<>> THEN 1 ELSE 0) + (IF st.sig[s].list # "" THEN 1 ELSE 0)

Step(st, e) ==
  CASE e.k = "obj" -> Ok(AddObj(st, e))
    [] e.k = "con" -> Ok([st EXCEPT !.sig[e.sig].slots = Put1(@, [f |-> e.f, prio |-> e.prio, max |-> e.max, pre |-> e.pre, weak |-> e.weak, local |-> e.local])])
    [] e.k = "dis" ->
        (* (disconnecting from a group disconnects from its signals, too) *)
        LET M == {e.sig} \cup Range(st.sig[e.sig].members)
            has == \E m \in M : \E i \in DOMAIN st.sig[m].slots : st.sig[m].slots[i].f = e.f IN
        IF e.r # (IF has THEN "ok" ELSE "ValueError") THEN No("outcome of disconnect")
        ELSE Ok([st EXCEPT !.sig = [s \in DOMAIN @ |-> IF s \in M THEN [@[s] EXCEPT !.slots = SelectSeq(@, LAMBDA x : x.f # e.f)] ELSE @[s]]])
    [] e.k = "hold" ->
        LET M == Range(st.sig[e.sig].members) IN
        Ok(CASE e.what = "pause" -> [st EXCEPT !.sig[e.sig].paused = TRUE]
             [] e.what = "block" ->
                 [st EXCEPT !.sig = [s \in DOMAIN @ |-> IF s \in M \cup {e.sig} THEN [@[s] EXCEPT !.blocked = TRUE, !.was = IF s = e.sig THEN [m \in M |-> st.sig[m].blocked] ELSE @] ELSE @[s]]]
             [] e.what = "unblock" ->
                 [st EXCEPT !.sig = [s \in DOMAIN @ |-> IF s \in M THEN [@[s] EXCEPT !.blocked = st.sig[e.sig].was[s]] ELSE IF s = e.sig THEN [@[s] EXCEPT !.blocked = FALSE, !.was = <<>>] ELSE @[s]]])
    [] e.k = "resume" ->
        LET q == st.sig[e.sig].held t == [st EXCEPT !.sig[e.sig].paused = FALSE, !.sig[e.sig].held = <<>>] IN
        Ok(IF st.sig[e.sig].members # <<>> THEN PushRelay(t, e.sig, q) ELSE Push(t, "emit", [i \in DOMAIN q |-> <<e.sig, q[i]>>]))
    [] e.k = "emit" -> Ok(Push(st, "emit", <<<<e.sig, e.a>>>>))
    [] e.k = "op" ->
        LET f == Effect(st.obj[e.o], e)
            ev == SelectSeq(f.ev, LAMBDA x : x[1] \in DOMAIN st.obj[e.o].n) IN
        Ok(Push([st EXCEPT !.obj[e.o].c = f.c, !.obj[e.o].sel = f.sel], "op", [i \in DOMAIN ev |-> <<Sid(st, e.o, ev[i][1]), ev[i][2]>>]))
    [] e.k = "cb" ->
        IF st.fr = <<>> \/ Head(st.fr).now = {} THEN No("a callback too many")
        ELSE LET S == {x \in Head(st.fr).now : Head(x[2]).f = e.f} IN
             IF S = {} THEN No("another callback was due")
             ELSE IF {x \in S : Head(x[2]).a = e.a} = {} THEN No("arguments of the callback")
             ELSE LET x == CHOOSE y \in S : Head(y[2]).a = e.a
                      r == IF Len(x[2]) = 1 THEN {} ELSE {<<x[1], Tail(x[2])>>} IN
                  Ok(Push([st EXCEPT !.fr[1].now = (@ \ {x}) \cup r], "cb", <<>>))
    [] e.k = "cbend" -> IF st.fr = <<>> \/ Head(st.fr).t # "cb" THEN No("end of a callback") ELSE Ok(Norm([st EXCEPT !.fr = Tail(@)]))
    [] e.k = "done" ->
        IF st.fr = <<>> \/ Head(st.fr).t = "cb" THEN No("nothing was emitted")
        ELSE IF Head(st.fr).now # {} THEN No("a callback is missing")
        ELSE IF e.r # e.x THEN No("outcome of the operation")
        ELSE Ok([st EXCEPT !.fr = Tail(@)])
    [] e.k = "copy" ->
        LET r == IF e.how = "pickle" /\ Local(st, e.o) THEN "error" ELSE "ok" IN
        IF e.r # r THEN No("outcome of the copy")
        ELSE IF r # "ok" THEN Ok(st)
        ELSE IF ~e.fresh THEN No("the copy is not a new object of the same class")
        ELSE IF ~e.eq THEN No("the copy is not equal")
        (* (what is selected in a shallow copy of a list is not said) *)
        ELSE IF st.obj[e.o].kind = "sel" /\ ~(IF e.how = "copy" THEN Range(e.sel) \subseteq Range(st.obj[e.o].c) ELSE Range(e.sel) = st.obj[e.o].sel) THEN No("selection of the copy")
        ELSE IF Keeps(st, e.o, e.how) /\ ~e.only /\ Weak(st, e.o) /\ ~e.warned THEN No("no warning about what was left out")
        ELSE Ok(Copied(st, e.o, e))
    [] e.k = "info" ->
        IF e.p # st.sig[e.sig].p THEN No("properties of the signal")
        ELSE IF e.n >= 0 /\ e.n # NSlots(st, e.sig) THEN No("number of connections")
        ELSE IF Range(e.has) # {st.sig[e.sig].slots[i].f : i \in DOMAIN st.sig[e.sig].slots} THEN No("connected callbacks") ELSE Ok(st)
    [] e.k = "mode" -> IF e.mode = st.sig[e.sig].p.mode THEN Ok(st) ELSE No("re-emission mode")
    [] e.k = "content" ->
        IF ~SameContent(st.obj[e.o], e.c) THEN No("content")
        ELSE IF st.obj[e.o].kind = "sel" /\ Range(e.sel) # st.obj[e.o].sel THEN No("selection") ELSE Ok(st)
    [] e.k = "owner" -> IF e.is THEN Ok(st) ELSE No("owner of the signal")
    [] e.k = "end" -> IF st.fr = <<>> THEN Ok(st) ELSE No("did not return")
    [] OTHER -> No("unexpected: " \o ToString(e))
=============================================================================
