----------------------------- MODULE ProxyCore -----------------------------
(***************************************************************************)
(* Objects behind evented proxies: attributes (plain ones, ones with a     *)
(* class default, and properties that convert, refuse, or have no setter   *)
(* or getter) and items (of a mapping or a list), what assigning and       *)
(* deleting them does, and which announcements each proxy makes.           *)
(*                                                                         *)
(* Values are tokens that stand for the identity of an object; "" is none. *)
(***************************************************************************)
EXTENDS PySeq

Rej(why) == [ok |-> FALSE, why |-> why]
Ok(st) == [ok |-> TRUE, st |-> st]

(* hdr.attrs: attribute -> [kind, default]; hdr.conv: token -> token of a converting property *)
InitSt(hdr) == [obj |-> <<>>, attrs |-> hdr.attrs, conv |-> hdr.conv, bad |-> hdr.bad]

Names(st) == DOMAIN st.attrs
(* an object: kind of its items, the instance attributes, the items *)
NewObj(st, kind, attrs, items) == [kind |-> kind, a |-> attrs, q |-> items]

Visible(st, o, n) ==
  LET k == st.attrs[n].kind IN
  IF k = "wo" THEN "" ELSE IF o.a[n] # "" THEN o.a[n] ELSE st.attrs[n].default
Conv(st, v) == IF v \in DOMAIN st.conv THEN st.conv[v] ELSE v

Done(o, x) == [r |-> "ok", o |-> o, x |-> x]
Err(o, name) == [r |-> name, o |-> o, x |-> <<>>]

SetAttr(st, o, n, v) ==
  LET k == st.attrs[n].kind
      stored == IF k = "conv" THEN Conv(st, v) ELSE v
      o2 == [o EXCEPT !.a[n] = stored]
      before == Visible(st, o, n)
      after == Visible(st, o2, n)
  IN IF k = "ro" THEN Err(o, "AttributeError")
     ELSE IF k = "picky" /\ v \in Range(st.bad) THEN Err(o, "ValueError")
     ELSE Done(o2, IF before # after THEN <<[n |-> "attribute_set", key |-> n, v |-> after, now |-> after]>> ELSE <<>>)
DelAttr(st, o, n) ==
  LET k == st.attrs[n].kind
      o2 == [o EXCEPT !.a[n] = ""] IN
  IF k \in {"ro", "conv", "picky", "wo"} THEN Err(o, "AttributeError")
  ELSE IF o.a[n] = "" THEN Err(o, "AttributeError")
  ELSE Done(o2, <<[n |-> "attribute_deleted", key |-> n, v |-> "", now |-> Visible(st, o2, n)]>>)

(* items of a mapping: <<key, value>> pairs; of a list: values *)
Where(q, k) == LET m == {i \in DOMAIN q : q[i][1] = k} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE
SetItem(st, o, e) ==
  IF o.kind = "none" THEN Err(o, "TypeError")
  ELSE IF o.kind = "list"
  THEN IF ~InRange(o.q, e.i) THEN Err(o, "IndexError")
       ELSE LET p == Pos(o.q, e.i) IN
            Done([o EXCEPT !.q = Put(@, p, e.v)],
                 IF At(o.q, p) # e.v THEN <<[n |-> "item_set", key |-> e.key, v |-> e.v, now |-> e.v]>> ELSE <<>>)
  ELSE IF e.v \in Range(st.bad) THEN Err(o, "ValueError")
  ELSE LET i == Where(o.q, e.key)
           w == Conv(st, e.v)
           q2 == IF i = 0 THEN Append(o.q, <<e.key, w>>) ELSE [o.q EXCEPT ![i] = <<e.key, w>>]
           readable == o.kind # "wodict"
       IN Done([o EXCEPT !.q = q2],
               IF readable /\ (i = 0 \/ o.q[i][2] # w) THEN <<[n |-> "item_set", key |-> e.key, v |-> w, now |-> w]>> ELSE <<>>)
DelItem(st, o, e) ==
  IF o.kind = "none" THEN Err(o, "TypeError")
  ELSE IF o.kind = "list"
  THEN IF ~InRange(o.q, e.i) THEN Err(o, "IndexError")
       ELSE Done([o EXCEPT !.q = Del(@, Pos(o.q, e.i))], <<[n |-> "item_deleted", key |-> e.key, v |-> "", now |-> ""]>>)
  ELSE LET i == Where(o.q, e.key) IN
       IF i = 0 THEN Err(o, "KeyError")
       ELSE Done([o EXCEPT !.q = RemoveAt(@, i)], <<[n |-> "item_deleted", key |-> e.key, v |-> "", now |-> ""]>>)

Sem(st, o, e) ==
  CASE e.op = "setattr" -> SetAttr(st, o, e.key, e.v)
    [] e.op = "delattr" -> DelAttr(st, o, e.key)
    [] e.op = "setitem" -> SetItem(st, o, e)
    [] e.op = "delitem" -> DelItem(st, o, e)

(* announcements of the operation on proxy e.p: no other proxy announces anything *)
Anns(x) == [i \in DOMAIN x |-> [n |-> x[i].n, key |-> x[i].key, v |-> x[i].v, now |-> x[i].now]]
Foreign(e) == \E i \in DOMAIN e.x : e.x[i].p # e.p
Seen(st, o) == [n \in Names(st) |-> Visible(st, o, n)]

DoOp(st, e) ==
  LET o == st.obj[e.p]
      m == Sem(st, o, e)
  IN
  IF Foreign(e) THEN Rej("another proxy announced the operation of one (" \o e.op \o ")")
  ELSE IF e.r # m.r THEN Rej("the outcome differs from that of the object (" \o e.op \o ")")
  ELSE IF e.attrs # Seen(st, m.o) THEN Rej("the attributes afterwards differ from those of the object (" \o e.op \o ")")
  ELSE IF e.items # m.o.q THEN Rej("the items afterwards differ from those of the object (" \o e.op \o ")")
  ELSE IF m.r # "ok" /\ e.x # <<>> THEN Rej("a failing operation was announced (" \o e.op \o ")")
  ELSE IF m.x = <<>> /\ e.x # <<>> THEN Rej("an operation was announced that changed nothing (" \o e.op \o ")")
  ELSE IF Len(e.x) # Len(m.x) THEN Rej("an operation was not announced exactly once (" \o e.op \o ")")
  ELSE IF Anns(e.x) # m.x THEN Rej("an operation was announced wrongly (" \o e.op \o ")")
  ELSE Ok([st EXCEPT !.obj[e.p] = m.o])

(* any other operation: the same as on a twin of the object, that has no proxy *)
DoSame(st, e) ==
  LET o == st.obj[e.p] IN
  IF Foreign(e) THEN Rej("another proxy announced the operation of one (" \o e.op \o ")")
  ELSE IF e.got # e.want THEN Rej("the result differs from that of the object (" \o e.op \o ")")
  ELSE IF Anns(e.x) # (IF e.ann = "" THEN <<>> ELSE <<[n |-> e.ann, key |-> e.key, v |-> e.v, now |-> ""]>>)
  THEN Rej(IF e.ann = "" THEN "an operation was announced that is not one to announce (" \o e.op \o ")"
           ELSE "an operation was not announced exactly once and correctly (" \o e.op \o ")")
  ELSE Ok([st EXCEPT !.obj[e.p].q = e.items])

DoNew(st, e) ==
  LET o == NewObj(st, e.kind, e.a, e.items) IN
  IF e.conns # 0 THEN Rej("a new proxy already has connections")
  ELSE Ok([st EXCEPT !.obj = (e.p :> o) @@ @])

Step(st, e) ==
  CASE e.k = "op" -> DoOp(st, e)
    [] e.k = "same" -> DoSame(st, e)
    [] e.k = "new" -> DoNew(st, e)
    [] e.k = "end" -> Ok(st)
    [] e.k = "unexpected" -> Rej("unexpected: " \o e.msg)
    [] OTHER -> Rej("unknown event " \o e.k)
=============================================================================
