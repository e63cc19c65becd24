-------------------------------- MODULE SelMC --------------------------------
(* All operations on all small selectable lists: the rules of the selection   *)
(* are invariants, and single operations do what they say.                    *)
EXTENDS SelCore
CONSTANTS Items
VARIABLES st, last
vars == <<st, last>>
Seqs(n) == UNION {[1..k -> Items] : k \in 0..n}
Free == Items \ Range(st.items)
Base == [res |-> Nothing]
Ops ==
  {[op |-> o, v |-> v, res |-> Nothing] : o \in {"add", "discard", "remove", "toggle", "select_only"}, v \in Items}
  \cup {[op |-> "active", v |-> v, res |-> Nothing] : v \in Items \cup {No}}
  \cup {[op |-> "current", v |-> v, res |-> Nothing] : v \in Range(st.items) \cup {No}}
  \cup {[op |-> o, vs |-> vs, res |-> Nothing] :
         o \in {"update", "difference_update", "intersection_update", "symmetric_difference_update", "assign"}, vs \in Seqs(2)}
  \cup {[op |-> "clear", keep |-> k, res |-> Nothing] : k \in BOOLEAN}
  \cup {[op |-> o, res |-> Nothing] : o \in {"select_all", "deselect_all", "remove_selected", "l.clear", "reverse"}}
  \cup {[op |-> "pop", res |-> R("t", v)] : v \in Range(st.sel)}
  \cup {[op |-> "select_next", step |-> d, expand |-> x, wrap |-> w, res |-> Nothing] : d \in {1, -1, 2}, x, w \in BOOLEAN}
  \cup {[op |-> "insert", i |-> i, v |-> v, res |-> Nothing] : i \in 0..Len(st.items), v \in Free}
  \cup {[op |-> "append", v |-> v, res |-> Nothing] : v \in Free}
  \cup {[op |-> "setitem", key |-> <<"i", i - 1>>, v |-> v, res |-> Nothing] : i \in DOMAIN st.items, v \in Free}
  \cup {[op |-> "delitem", key |-> <<"i", i - 1>>, res |-> Nothing] : i \in DOMAIN st.items}
  \cup {[op |-> "delitem", key |-> <<"s", TRUE, a, TRUE, b, 1>>, res |-> Nothing] : a, b \in 0..Len(st.items)}
  \cup {[op |-> "move", i |-> i, d |-> d, res |-> Nothing] : i \in 0..(Len(st.items) - 1), d \in 0..Len(st.items)}

Init == st = [InitSt([parent |-> TRUE, eq |-> [i \in Items |-> i]]) EXCEPT !.items = <<>>] /\ last = <<>>
Next == \E e \in Ops :
  LET m == Sem(st, e) IN
  /\ \E sel \in (IF m.parts = {} \/ m.r = "ok" THEN {m.s.sel} ELSE m.parts) :
       st' = IF m.r = "ok" THEN m.s
             ELSE [m.s EXCEPT !.sel = sel, !.act = ActiveOf(sel), !.cur = IF ActiveOf(sel) # No /\ ActiveOf(sel) # m.s.act THEN ActiveOf(sel) ELSE @]
  /\ last' = [e |-> e, b |-> st, r |-> m.r, res |-> m.res]
Spec == Init /\ [][Next]_vars
View == st

Inv == Rules(st) = ""
B == last'.b
E == last'.e
Sub(s, q) == SelectSeq(q, LAMBDA v : In(s, v)) = s  (* in the same order *)
Laws ==
  /\ last'.r # "ok" => st'.items = B.items
  /\ (last'.r # "ok" /\ E.op \in {"add", "remove", "toggle", "select_only", "active"}) => st' = B
  /\ (E.op = "active" /\ last'.r = "ok" /\ E.v # No) => st'.act = E.v /\ (E.v # B.act => st'.cur = E.v /\ st'.sel = <<E.v>>)
  /\ (E.op = "select_only" /\ last'.r = "ok") => st'.sel = <<E.v>>
  /\ (E.op = "toggle" /\ last'.r = "ok") => (In(st'.sel, E.v) # In(B.sel, E.v)) /\ Range(st'.sel) \ {E.v} = Range(B.sel) \ {E.v}
  /\ (E.op \in {"append", "insert"}) => st'.act = E.v /\ st'.cur = E.v
  /\ (E.op \in {"delitem", "setitem", "l.clear"}) => Range(st'.sel) = Range(B.sel) \cap Range(st'.items)
  /\ (E.op \in {"move", "reverse"}) => [st' EXCEPT !.items = <<>>] = [B EXCEPT !.items = <<>>]
  /\ (E.op = "remove_selected") => /\ st'.items = Without(B.items, Range(B.sel))
                                   /\ last'.res[2] = B.sel
                                   /\ Len(st'.sel) = (IF st'.items = <<>> THEN 0 ELSE 1)
  (* stepping forward and back again, inside the list *)
  /\ (E.op = "select_next" /\ ~E.expand /\ B.items # <<>>) => Len(st'.sel) = 1 /\ (B.act \notin {No, B.cur} \/ E.wrap \/ st'.act # B.act \/ st'.act \in {B.items[1], Last(B.items)})
  /\ (E.op = "select_next" /\ E.expand) => Range(B.sel) \subseteq Range(st'.sel) /\ (B.items # <<>> => In(st'.sel, st'.cur))
  /\ (E.op = "select_next" /\ E.wrap /\ E.step = 1 /\ B.sel # <<>> /\ B.cur # No /\ B.act \in {No, B.cur}) =>
       LET m == Sem(st', [E EXCEPT !.step = -1]) IN m.s.cur = B.cur
  /\ (E.op = "assign" /\ last'.r = "ok") => Range(st'.sel) = Range(E.vs)
  (* an active item is current, unless the current one was chosen *)
  /\ (st'.act # No /\ st'.act # B.act) => st'.cur = st'.act \/ (E.op = "select_next" /\ E.expand)
PLaws == [][Laws]_vars
=============================================================================
