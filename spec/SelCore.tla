------------------------------ MODULE SelCore ------------------------------
(***************************************************************************)
(* A selectable list: a list of distinct items, the selected ones (in the  *)
(* order of their selection), the active and the current item.  "-" is no  *)
(* item.                                                                   *)
(***************************************************************************)
EXTENDS PySeq
L == INSTANCE ListCore

Rej(why) == [ok |-> FALSE, why |-> why]
Ok(st) == [ok |-> TRUE, st |-> st]
No == "-"
Nothing == <<"none", "">>
R(k, v) == <<k, v>>

InitSt(hdr) ==
  [items |-> <<>>, sel |-> <<>>, act |-> No, cur |-> No, parent |-> hdr.parent, eq |-> hdr.eq]

In(q, v) == v \in Range(q)
Only(q, S) == SelectSeq(q, LAMBDA y : y \in S)
Without(q, S) == SelectSeq(q, LAMBDA y : y \notin S)
Can(st, v) == ~st.parent \/ In(st.items, v)

ActiveOf(sel) == IF Len(sel) = 1 THEN sel[1] ELSE No

(***************************************************************************)
(* Elementary changes of (sel, act, cur)                                   *)
(***************************************************************************)
(* the selected items change: a single one becomes active, and current *)
To(s, sel) ==
  IF sel = s.sel THEN s
  ELSE LET a == ActiveOf(sel) IN
       [s EXCEPT !.sel = sel, !.act = a, !.cur = IF a # No /\ a # s.act THEN a ELSE @]
AddOne(s, v) == IF In(s.sel, v) THEN s ELSE To(s, Append(s.sel, v))
DropOne(s, v) == To(s, Without(s.sel, {v}))
SetActive(s, v) ==
  IF v = s.act THEN s
  ELSE IF v = No THEN [s EXCEPT !.sel = <<>>, !.act = No, !.cur = No]
  ELSE [s EXCEPT !.sel = <<v>>, !.act = v, !.cur = v]
SelectOnly(s, v) ==
  IF In(s.sel, v) THEN To(s, <<v>>) ELSE To(To(s, <<>>), <<v>>)
Clear(s, keep) == LET s2 == IF keep THEN s ELSE [s EXCEPT !.cur = No] IN To(s2, <<>>)
(* an item leaves the list *)
Leave(s, v) == LET s2 == DropOne(s, v) IN IF s2.cur = v THEN [s2 EXCEPT !.cur = No] ELSE s2
RECURSIVE LeaveAll(_, _)
LeaveAll(s, vs) == IF vs = <<>> THEN s ELSE LeaveAll(Leave(s, Head(vs)), Tail(vs))
RECURSIVE AddAll(_, _)
AddAll(s, vs) == IF vs = <<>> THEN s ELSE AddAll(AddOne(s, Head(vs)), Tail(vs))
RECURSIVE DropAll(_, _)
DropAll(s, vs) == IF vs = <<>> THEN s ELSE DropAll(DropOne(s, Head(vs)), Tail(vs))
RECURSIVE ActivateAll(_, _)
ActivateAll(s, vs) == IF vs = <<>> THEN s ELSE ActivateAll(SetActive(s, Head(vs)), Tail(vs))

(* the position of the next item to select *)
NextPos(s, step, wrap) ==
  LET n == Len(s.items)
      end == IF step > 0 THEN n - 1 ELSE 0
      at == IF s.cur = No \/ ~In(s.items, s.cur) THEN -1
            ELSE (CHOOSE i \in DOMAIN s.items : s.items[i] = s.cur) - 1
      i == at + step
  IN IF s.sel = <<>> \/ at = -1 THEN end
     ELSE IF 0 <= i /\ i < n THEN i
     ELSE IF wrap THEN i % n ELSE end

RECURSIVE RemoveEach(_, _, _)
RemoveEach(s, vs, at) ==  (* -> <<state, position of the last one when it was removed>> *)
  IF vs = <<>> THEN <<s, at>>
  ELSE LET v == Head(vs)
           i == (CHOOSE j \in DOMAIN s.items : s.items[j] = v) - 1
       IN RemoveEach(Leave([s EXCEPT !.items = Without(@, {v})], v), Tail(vs), i)

(***************************************************************************)
(* Outcome: state s, error r, result; `loose`: the current item depends on  *)
(* the order in which several items were handled                           *)
(***************************************************************************)
Done(s, res) == [r |-> "ok", s |-> s, res |-> res, loose |-> FALSE, parts |-> {}]
Many(s) == [r |-> "ok", s |-> s, res |-> Nothing, loose |-> TRUE, parts |-> {}]
Err(s, r) == [r |-> r, s |-> s, res |-> Nothing, loose |-> FALSE, parts |-> {s.sel}]
(* refused in the middle: what was done before may stay *)
Part(s, r, parts) == [r |-> r, s |-> s, res |-> Nothing, loose |-> TRUE, parts |-> parts]

Refused(s, vs) == \E i \in DOMAIN vs : ~Can(s, vs[i])
BeforeRefusal(s, vs) ==
  LET m == {i \in DOMAIN vs : ~Can(s, vs[i])}
      i == CHOOSE i \in m : \A j \in m : i <= j IN SubSeq(vs, 1, i - 1)

ListOps == {"insert", "append", "extend", "iadd", "l.remove", "delitem", "l.clear", "setitem", "setslice", "move", "move_multiple", "reverse"}
ListSem(s, e) ==
  L!Sem([items |-> s.items, eq |-> s.eq, child |-> FALSE, hashable |-> TRUE, bad |-> <<>>, subst |-> <<>>],
        CASE e.op = "l.remove" -> [e EXCEPT !.op = "remove"]
          [] e.op = "l.clear" -> [e EXCEPT !.op = "clear"]
          [] OTHER -> e)

Sem(s, e) ==
  CASE e.op \in ListOps ->
         LET m == ListSem(s, e)
             gone == Without(s.items, Range(m.after))
             s2 == LeaveAll([s EXCEPT !.items = m.after], gone)
             s3 == IF e.op \in {"insert", "append"} THEN SetActive(s2, e.v)
                   ELSE IF e.op \in {"extend", "iadd"} THEN ActivateAll(s2, e.vs) ELSE s2
         IN IF m.r # "ok" THEN Err(s, m.r)
            ELSE [r |-> "ok", s |-> s3, res |-> m.res, loose |-> Len(gone) > 1, parts |-> {}]
    [] e.op = "add" -> IF Can(s, e.v) THEN Done(AddOne(s, e.v), Nothing) ELSE Err(s, "ValueError")
    [] e.op = "discard" -> Done(DropOne(s, e.v), Nothing)
    [] e.op = "remove" -> IF In(s.sel, e.v) THEN Done(DropOne(s, e.v), Nothing) ELSE Err(s, "KeyError")
    [] e.op = "toggle" ->
         IF In(s.sel, e.v) THEN Done(DropOne(s, e.v), Nothing)
         ELSE IF Can(s, e.v) THEN Done(AddOne(s, e.v), Nothing) ELSE Err(s, "ValueError")
    [] e.op = "select_only" -> IF Can(s, e.v) THEN Done(SelectOnly(s, e.v), Nothing) ELSE Err(s, "ValueError")
    [] e.op = "active" ->
         IF e.v = s.act THEN Done(s, Nothing)
         ELSE IF e.v # No /\ ~Can(s, e.v) THEN Err(s, "ValueError") ELSE Done(SetActive(s, e.v), Nothing)
    [] e.op = "current" -> Done([s EXCEPT !.cur = e.v], Nothing)
    [] e.op = "clear" -> Done(Clear(s, e.keep), Nothing)
    [] e.op = "deselect_all" -> Done(Clear(s, FALSE), Nothing)
    [] e.op = "select_all" -> Many(AddAll(s, s.items))
    [] e.op \in {"update", "ior"} ->
         IF Refused(s, e.vs)
         THEN Part(s, "ValueError", {s.sel, AddAll(s, BeforeRefusal(s, e.vs)).sel})
         ELSE Many(AddAll(s, e.vs))
    [] e.op \in {"difference_update", "isub"} -> Many(DropAll(s, e.vs))
    [] e.op \in {"intersection_update", "iand"} -> Many(DropAll(s, Without(s.sel, Range(e.vs))))
    [] e.op \in {"symmetric_difference_update", "ixor"} ->
         LET us == L!Unique(e.vs)
             vs == Without(us, Range(s.sel))
             k == CHOOSE i \in DOMAIN us : us[i] = vs[Len(BeforeRefusal(s, vs)) + 1]
             pre == SubSeq(us, 1, k - 1)
         IN IF Refused(s, vs)
            THEN Part(s, "ValueError", {s.sel, Without(s.sel, Range(pre)) \o Without(pre, Range(s.sel))})
            ELSE Many(AddAll(DropAll(s, us), vs))
    [] e.op = "assign" ->
         LET s2 == DropAll(s, Without(s.sel, Range(e.vs))) IN
         IF Refused(s, e.vs)
         THEN Part(s, "ValueError", {s.sel, s2.sel, AddAll(s2, BeforeRefusal(s, e.vs)).sel})
         ELSE Many(AddAll(s2, e.vs))
    [] e.op = "pop" ->
         IF s.sel = <<>> THEN Err(s, "KeyError")
         ELSE IF e.res[1] = "t" /\ In(s.sel, e.res[2]) THEN Done(DropOne(s, e.res[2]), e.res)
         ELSE Done(s, R("t", "a selected item"))
    [] e.op = "select_next" ->
         IF s.items = <<>> THEN Done(s, Nothing)
         ELSE LET v == At(s.items, NextPos(s, e.step, e.wrap)) IN
              Done(IF e.expand THEN [AddOne(s, v) EXCEPT !.cur = v] ELSE SetActive(s, v), Nothing)
    [] e.op = "remove_selected" ->
         LET p == RemoveEach(s, s.sel, 0)
             i == Max2(0, p[2] - 1)
         IN Done(IF Len(p[1].items) > i THEN AddOne(p[1], At(p[1].items, i)) ELSE p[1], R("l", s.sel))

(* set operations: they announce the change of the selected items in one event *)
Single == {"add", "discard", "remove", "toggle", "clear", "deselect_all", "select_all", "update", "ior", "difference_update", "isub",
           "intersection_update", "iand", "symmetric_difference_update", "ixor", "pop"}

(***************************************************************************)
(* The announcements                                                       *)
(***************************************************************************)
RECURSIVE Replay(_, _, _)
Replay(sel, x, fin) ==
  IF x = <<>>
  THEN IF Range(sel) # Range(fin) THEN "the announced changes are not the changes of the selected items" ELSE ""
  ELSE LET v == Head(x) IN
  IF v.n = "active"
  THEN IF v.v # v.a THEN "an active item was announced that is not the one in place" ELSE Replay(sel, Tail(x), fin)
  ELSE IF v.n = "current"
  THEN IF v.v # v.u THEN "a current item was announced that is not the one in place" ELSE Replay(sel, Tail(x), fin)
  ELSE IF v.add = <<>> /\ v.rem = <<>> THEN "a change of the selected items was announced although nothing changed"
  ELSE IF Range(v.add) \cap Range(sel) # {} \/ ~(Range(v.rem) \subseteq Range(sel))
          \/ Len(v.add) # Cardinality(Range(v.add)) \/ Len(v.rem) # Cardinality(Range(v.rem))
       THEN "a change of the selected items was announced that is not one"
  ELSE IF Range(v.c) # (Range(sel) \cup Range(v.add)) \ Range(v.rem)
       THEN "a change of the selected items was announced when the new content was not in place"
  ELSE Replay(v.c, Tail(x), fin)

Of(x, n) == SelectSeq(x, LAMBDA v : v.n = n)
LastOk(x, old, new) ==
  /\ (old # new) => x # <<>>
  /\ x # <<>> => Last(x).v = new

Rules(s) ==
  IF s.act # ActiveOf(s.sel) THEN "the active item is not the single selected one"
  ELSE IF Len(s.sel) # Cardinality(Range(s.sel)) THEN "an item is selected twice"
  ELSE IF s.parent /\ ~(Range(s.sel) \subseteq Range(s.items)) THEN "an item that is not in the list is selected"
  ELSE IF s.parent /\ s.cur # No /\ ~In(s.items, s.cur) THEN "an item that is not in the list is current"
  ELSE ""

(* A listener raised (of a change of the selected, active or current item, or of one of
   the list): the caller gets the error.  How much of the operation was done is left open,
   but the list, the selected, the active and the current item fit, and what was announced
   are the changes of the selected items. *)
DoBoom(st, e) ==
  LET m == Sem(st, e)
      new == [st EXCEPT !.items = e.items, !.sel = e.sel, !.act = e.act, !.cur = e.cur]
      w == Rules(new)
      p == Replay(st.sel, e.x, e.sel) IN
  IF e.r # "EmitLoopError" THEN Rej("the error of a listener was not reported (" \o e.op \o ")")
  ELSE IF w # "" THEN Rej(w \o " (a listener raised; " \o e.op \o ")")
  ELSE IF p # "" THEN Rej(p \o " (a listener raised; " \o e.op \o ")")
  ELSE IF ~(Range(e.items) \subseteq Range(st.items) \cup Range(m.s.items))
  THEN Rej("the wrong content of the list (a listener raised; " \o e.op \o ")")
  ELSE IF e.op \notin ListOps \cup {"remove_selected"} /\ e.items # st.items
  THEN Rej("the wrong content of the list (a listener raised; " \o e.op \o ")")
  ELSE Ok(new)

(* a selection made directly for a list (or asked to select something more) *)
DoDirect(st, e) ==
  IF \E i \in DOMAIN e.vs : ~In(st.items, e.vs[i])
  THEN IF e.r # "ValueError" THEN Rej("an item that is not in the parent could be selected") ELSE Ok(st)
  ELSE IF e.r # "ok" THEN Rej("an operation was refused (a new selection)")
  ELSE IF Len(e.sel) # Cardinality(Range(e.sel)) \/ Range(e.sel) # Range(e.vs) THEN Rej("a new selection selects the wrong items")
  ELSE IF e.act # ActiveOf(e.sel) THEN Rej("a new selection has the wrong active item")
  ELSE Ok(st)

DoOp(st, e) ==
  IF (IF "boom" \in DOMAIN e THEN e.boom # "" ELSE FALSE) THEN DoBoom(st, e) ELSE
  LET m == Sem(st, e)
      new == [st EXCEPT !.items = e.items, !.sel = e.sel, !.act = e.act, !.cur = e.cur]
      w == Rules(new)
  IN
  IF e.r # m.r THEN Rej(IF m.r = "ok" THEN "an operation was refused (" \o e.op \o ")" ELSE "an operation was not refused (" \o e.op \o ")")
  ELSE IF m.res # <<"any", "">> /\ e.res # m.res THEN Rej("the wrong result (" \o e.op \o ")")
  ELSE IF e.items # m.s.items THEN Rej("the wrong content of the list (" \o e.op \o ")")
  ELSE IF w # "" THEN Rej(w \o " (" \o e.op \o ")")
  ELSE IF (IF m.parts # {} THEN e.sel \notin m.parts ELSE e.sel # m.s.sel)
  THEN Rej(IF m.r # "ok" THEN "a refused change changed what is selected (" \o e.op \o ")" ELSE "the wrong items are selected (" \o e.op \o ")")
  ELSE IF e.act # ActiveOf(e.sel) THEN Rej("the wrong active item (" \o e.op \o ")")
  ELSE IF ~m.loose /\ e.cur # m.s.cur THEN Rej("the wrong current item (" \o e.op \o ")")
  ELSE IF m.loose /\ e.act # No /\ e.act # st.act /\ e.cur # e.act THEN Rej("the new active item is not current (" \o e.op \o ")")
  ELSE IF m.loose /\ e.cur \notin {st.cur, No} \cup Range(st.sel) \cup Range(e.sel) THEN Rej("the wrong current item (" \o e.op \o ")")
  ELSE LET p == Replay(st.sel, e.x, e.sel) IN
  IF p # "" THEN Rej(p \o " (" \o e.op \o ")")
  ELSE IF e.op \in Single /\ Len(Of(e.x, "items")) > 1 THEN Rej("a change of the selected items was announced more than once (" \o e.op \o ")")
  ELSE IF ~LastOk(Of(e.x, "active"), st.act, e.act) THEN Rej("the active item was not announced (" \o e.op \o ")")
  ELSE IF ~LastOk(Of(e.x, "current"), st.cur, e.cur) THEN Rej("the current item was not announced (" \o e.op \o ")")
  ELSE Ok(new)

(* a new list activates what is inserted, one after the other *)
DoNew(st, e) ==
  LET s0 == [st EXCEPT !.items = e.items, !.sel = <<>>, !.act = No, !.cur = No]
      s == IF st.parent THEN ActivateAll(s0, e.items) ELSE AddAll([s0 EXCEPT !.items = <<>>], e.items)
      new == [s EXCEPT !.sel = e.sel, !.act = e.act, !.cur = e.cur]
  IN IF Rules(new) # "" THEN Rej(Rules(new) \o " (new)")
     ELSE IF e.sel # s.sel THEN Rej("the wrong items are selected in a new list") ELSE Ok(new)

Step(st, e) ==
  CASE e.k = "op" -> DoOp(st, e)
    [] e.k = "new" -> DoNew(st, e)
    [] e.k = "direct" -> DoDirect(st, e)
    [] e.k = "end" -> Ok(st)
    [] e.k = "unexpected" -> Rej("unexpected: " \o e.msg)
    [] OTHER -> Rej("unknown event " \o e.k)
=============================================================================
