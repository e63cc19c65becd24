---------------------------- MODULE SignalCore ----------------------------
(***************************************************************************)
(* The emission machine of psygnal: signals, their connected callbacks     *)
(* ("slots"), emission loops in the three re-emission modes, blocking,     *)
(* pausing and replay, error propagation, the current emitter, and the     *)
(* death of weakly referenced objects.                                     *)
(*                                                                         *)
(* The machine is a state record `st` and one operator `Step(st, e)` that  *)
(* says, for an observable event `e`, whether it is allowed in `st` and    *)
(* what the state is afterwards.  `SignalCoreMC` explores it exhaustively  *)
(* with an environment of bounded size and checks the declarative          *)
(* properties; `TraceSignal` checks traces recorded from the real code.    *)
(*                                                                         *)
(* Everything that a callback does happens inside the call of that         *)
(* callback, so the machine has a stack of frames:                         *)
(*   "em"  a running emission (an emit call or, if `imp`, one that the     *)
(*         library makes itself: a replayed one, or one made by a slot     *)
(*         that is the emit method of another signal)                      *)
(*   "cb"  a running callback                                              *)
(*   "rs"  a running resume() (or the exit of a paused() context)          *)
(* Exceptions are pairs <<kind, id>>:  "u" an ordinary error raised by a   *)
(* callback, "e" the emit-loop error whose cause is the ordinary error id, *)
(* "b" an exception that is not an ordinary error, "r" a recursion error.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

NoX == <<"", "">>
NoLimit == 99

Rej(why) == [ok |-> FALSE, why |-> why]
Ok(st) == [ok |-> TRUE, st |-> st]
Check(cond, why, st) == IF cond THEN Ok(st) ELSE Rej(why)

(***************************************************************************)
(* State                                                                   *)
(***************************************************************************)
InitSig(mode, obj) ==
  [slots |-> <<>>, blk |-> FALSE, pau |-> FALSE, pq |-> <<>>, mode |-> mode,
   eq |-> <<>>, qa |-> FALSE, gen |-> 0, obj |-> obj]

(* `sigs`: sequence of [id, mode, obj];  `cbs`: sequence of
   [id, key, cap, obj, pre, tgt, unref];  `groups`: sequence of [id, members],
   where id is also the id of the signal that relays for the group *)
RelayCb(g) == [id |-> "~" \o g, key |-> "~" \o g, cap |-> NoLimit, obj |-> "none",
               pre |-> <<>>, tgt |-> g, unref |-> FALSE]
InitSt(hdr) ==
  [grp |-> [g \in {hdr.groups[i].id : i \in DOMAIN hdr.groups} |->
              LET i == CHOOSE j \in DOMAIN hdr.groups : hdr.groups[j].id = g
              IN [mem |-> hdr.groups[i].members,
                  expl |-> FALSE,  (* an explicit block() is in effect *)
                  saved |-> <<>>]  (* member -> its state before block() *)],
   sig |-> [s \in {hdr.sigs[i].id : i \in DOMAIN hdr.sigs} |->
              LET i == CHOOSE j \in DOMAIN hdr.sigs : hdr.sigs[j].id = s
              IN InitSig(hdr.sigs[i].mode, hdr.sigs[i].obj)],
   cb  |-> [c \in {hdr.cbs[i].id : i \in DOMAIN hdr.cbs} |->
              hdr.cbs[CHOOSE j \in DOMAIN hdr.cbs : hdr.cbs[j].id = c]]
           @@ [c \in {"~" \o hdr.groups[i].id : i \in DOMAIN hdr.groups} |->
              RelayCb(hdr.groups[CHOOSE j \in DOMAIN hdr.groups : "~" \o hdr.groups[j].id = c].id)],
   stack |-> <<>>,
   ctx |-> <<>>,
   nu |-> 0]

Frame(t, s) ==
  [t |-> t, s |-> s, c |-> "", args |-> <<>>, todo |-> <<>>, q |-> <<>>,
   fast |-> FALSE, skip |-> FALSE, imp |-> FALSE, root |-> FALSE, gen |-> 0,
   x |-> NoX]

Top(st) == Last(st.stack)
Pop(st) == [st EXCEPT !.stack = Front(@)]
Push(st, f) == [st EXCEPT !.stack = Append(@, f)]
SetTop(st, f) == [st EXCEPT !.stack[Len(st.stack)] = f]

(* code of the program runs at top level, or inside a callback *)
InEnv(st) == IF st.stack = <<>> THEN TRUE ELSE Top(st).t = "cb" /\ ~Top(st).imp

(***************************************************************************)
(* Slots                                                                   *)
(***************************************************************************)
Trunc(args, n) == IF Len(args) <= n THEN args ELSE SubSeq(args, 1, n)

Live(slots) == SelectSeq(slots, LAMBDA sl : ~sl.dead)

InsertSlot(slots, new) ==
  (* behind every slot whose priority is at least as high *)
  LET lower == {i \in DOMAIN slots : slots[i].p < new.p}
      at == IF lower = {} THEN Len(slots) + 1
            ELSE CHOOSE i \in lower : \A j \in lower : i <= j
  IN SubSeq(slots, 1, at - 1) \o <<new>> \o SubSeq(slots, at, Len(slots))

(* index of the first (in delivery order) live slot with that key, or 0 *)
SlotIndex(slots, key) ==
  LET m == {i \in DOMAIN slots : slots[i].key = key /\ ~slots[i].dead}
  IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j

(***************************************************************************)
(* Emission frames                                                         *)
(***************************************************************************)
(* the slots that are still to be called by an emission frame *)
Eligible(st, f) ==
  LET sg == st.sig[f.s] IN
  IF f.skip \/ f.x # NoX \/ (sg.mode = "latest-only" /\ ~f.fast /\ sg.gen # f.gen)
  THEN <<>>
  ELSE SelectSeq(f.todo, LAMBDA sl :
         \E j \in DOMAIN sg.slots : sg.slots[j].u = sl.u /\ ~sg.slots[j].dead)

(* begin an emission that is neither blocked nor paused *)
Start(st, s, args, fast, imp) ==
  LET sg == st.sig[s]
      live == Live(sg.slots)
      f == [Frame("em", s) EXCEPT !.args = args, !.fast = fast, !.imp = imp,
                                  !.todo = live]
      (* slots of dead objects are gone by the next emission *)
      st0 == [st EXCEPT !.sig[s].slots = live]
  IN IF fast \/ sg.mode = "immediate" THEN Push(st0, f)
     ELSE IF sg.mode = "latest-only"
     THEN Push([st0 EXCEPT !.sig[s].gen = @ + 1], [f EXCEPT !.gen = sg.gen + 1])
     ELSE (* queued *)
       IF sg.qa
       THEN Push([st0 EXCEPT !.sig[s].eq = Append(@, args)], [f EXCEPT !.skip = TRUE])
       ELSE Push([st0 EXCEPT !.sig[s].qa = TRUE], [f EXCEPT !.root = TRUE])

(* an emit call: dropped if blocked, collected if paused *)
Emit(st, s, args, fast, imp) ==
  LET sg == st.sig[s]
      skipped == [Frame("em", s) EXCEPT !.skip = TRUE, !.imp = imp, !.fast = fast]
  IN IF sg.blk THEN Push(st, skipped)
     ELSE IF sg.pau THEN Push([st EXCEPT !.sig[s].pq = Append(@, args)], skipped)
     ELSE Start(st, s, args, fast, imp)

(* what a group announces for the emission of a member *)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN ""
           ELSE IF Len(q) = 1 THEN Head(q) ELSE Head(q) \o "," \o Join(Tail(q))
Info(s, args) == <<s \o "(" \o Join(args) \o ")">>

(* the emission of a member reaches the group: collected if that is paused *)
Relayed(st, g, info) ==
  IF st.sig[g].pau
  THEN Push([st EXCEPT !.sig[g].pq = Append(@, info)],
            [Frame("em", g) EXCEPT !.skip = TRUE, !.imp = TRUE])
  ELSE Start(st, g, info, FALSE, TRUE)

(* end of an emission frame (normal or not): nothing queued remains *)
PopEm(st) ==
  LET f == Top(st) IN
  IF f.root THEN [Pop(st) EXCEPT !.sig[f.s].qa = FALSE, !.sig[f.s].eq = <<>>]
  ELSE Pop(st)

Wrap(x) == IF x[1] = "u" THEN <<"e", x[2]>> ELSE x

(* the frame on top gets an exception from what it called *)
FailTop(st, x) ==
  LET f == Top(st) IN
  SetTop(st, IF f.t = "em" THEN [f EXCEPT !.x = Wrap(x)]
             ELSE [f EXCEPT !.x = x, !.q = <<>>])

(***************************************************************************)
(* Steps that the library takes without anything observable happening      *)
(***************************************************************************)
RECURSIVE Norm(_)
Norm(st) ==
  IF st.stack = <<>> THEN st
  ELSE LET f == Top(st) IN
  CASE f.t = "rs" ->
         IF f.x = NoX /\ f.q # <<>>
         THEN Norm(Start(SetTop(st, [f EXCEPT !.q = Tail(@)]), f.s, Head(f.q), FALSE, TRUE))
         ELSE st
    [] f.t = "cb" ->
         IF f.imp
         THEN IF f.x # NoX THEN Norm(FailTop(Pop(st), f.x)) ELSE Norm(Pop(st))
         ELSE st
    [] f.t = "em" ->
         LET el == Eligible(st, f) IN
         IF f.x # NoX
         THEN IF f.imp THEN Norm(FailTop(PopEm(st), f.x)) ELSE st
         ELSE IF el = <<>>
         THEN IF f.root /\ st.sig[f.s].eq # <<>>
              THEN (* queued mode: next emission, to those connected now *)
                   LET live == Live(st.sig[f.s].slots) IN
                   Norm(SetTop([st EXCEPT !.sig[f.s].eq = Tail(@), !.sig[f.s].slots = live],
                               [f EXCEPT !.args = Head(st.sig[f.s].eq), !.todo = live]))
              ELSE IF f.imp THEN Norm(PopEm(st)) ELSE st
         ELSE IF st.cb[el[1].c].tgt # ""
         THEN (* the slot is the emit method of another signal *)
              LET s2 == st.cb[el[1].c].tgt
                  st1 == SetTop(st, [f EXCEPT !.todo = Tail(el)])
                  st2 == Push(st1, [Frame("cb", f.s) EXCEPT !.imp = TRUE, !.c = el[1].c])
              IN Norm(IF s2 \in DOMAIN st.grp THEN Relayed(st2, s2, Info(f.s, f.args))
                      ELSE Emit(st2, s2, Trunc(f.args, el[1].mx), FALSE, TRUE))
         ELSE st

(***************************************************************************)
(* Reducers                                                                *)
(***************************************************************************)
RECURSIVE Fold2(_, _, _)
Fold2(op, acc, q) ==
  IF q = <<>> THEN acc
  ELSE Fold2(op, CASE op = "cat" -> acc \o Head(q)
                   [] op = "last" -> Head(q)
                   [] op = "first" -> acc, Tail(q))

Reduced(q, red, init) ==
  CASE red = "none" -> q
    [] q = <<>> -> <<>>
    [] red \in {"cat", "last", "first"} -> <<Fold2(red, Head(q), Tail(q))>>
    [] red \in {"icat", "ilast"} ->
         <<Fold2(IF red = "icat" THEN "cat" ELSE "last", init, q)>>
    [] red = "all" -> <<Fold2("cat", <<>>, q)>>
    [] red = "ends" -> <<Head(q) \o Last(q)>>

(***************************************************************************)
(* Events                                                                  *)
(***************************************************************************)
DoEmit(st, e) ==
  Check(InEnv(st), "emit event outside of program code",
        Norm(Emit(st, e.s, e.a, e.m = "fast", FALSE)))

DoCb(st, e) ==
  IF st.stack = <<>> \/ Top(st).t # "em"
  THEN Rej("a callback was called although no emission is due to call one")
  ELSE LET f == Top(st)
           el == Eligible(st, f)
           exp == el[1]
           pre == st.cb[exp.c].pre
       IN IF f.skip THEN Rej("a callback was called by an emission that is blocked, paused or queued")
          ELSE IF f.x # NoX THEN Rej("a callback was called after another one had raised")
          ELSE IF el = <<>> THEN Rej("a callback was called that is not (or no longer) due in this emission")
          ELSE IF exp.c # e.c THEN Rej("the wrong callback was called (order, skipped or not connected)")
          ELSE IF e.a # pre \o Trunc(f.args, exp.mx) THEN Rej("a callback got the wrong arguments")
          ELSE Ok(Push(SetTop(st, [f EXCEPT !.todo = Tail(el)]),
                       [Frame("cb", f.s) EXCEPT !.c = e.c]))

DoRet(st, e) ==
  Check(st.stack # <<>> /\ Top(st).t = "cb" /\ Top(st).c = e.c,
        "callback return does not match", Norm(Pop(st)))

DoRaise(st, e) ==
  Check(st.stack # <<>> /\ Top(st).t = "cb" /\ Top(st).c = e.c,
        "callback exit does not match", Norm(FailTop(Pop(st), e.x)))

DoEmitRet(st, e) ==
  IF st.stack = <<>> \/ Top(st).t # "em" THEN Rej("emission end does not match")
  ELSE LET f == Top(st) IN
       IF f.x # NoX THEN Rej("an exception raised by a callback did not reach the emitter")
       ELSE IF Eligible(st, f) # <<>> THEN Rej("the emission returned without calling a connected callback")
       ELSE Ok(PopEm(st))

DoEmitX(st, e) ==
  IF st.stack = <<>> \/ Top(st).t # "em" THEN Rej("emission failure does not match")
  ELSE LET f == Top(st) IN
       IF f.x = NoX THEN Rej("an emission raised although no callback did")
       ELSE IF f.x # e.x THEN Rej("the emitter did not get the right exception")
       ELSE Ok(PopEm(st))

BeginReplay(st, s, red, init) ==
  LET sg == st.sig[s]
      q == IF Live(sg.slots) = <<>> THEN <<>> ELSE Reduced(sg.pq, red, init)
  IN Norm(Push([st EXCEPT !.sig[s].pau = FALSE, !.sig[s].pq = <<>>],
               [Frame("rs", s) EXCEPT !.q = q]))

DoResume(st, e) ==
  Check(InEnv(st), "resume outside of program code", BeginReplay(st, e.s, e.red, e.init))

DoResumeRet(st, e) ==
  IF st.stack = <<>> THEN Rej("resume end does not match")
  ELSE LET f == Top(st) IN
       IF f.t = "em" /\ f.imp
       THEN Rej("resume returned before everything collected was delivered")
       ELSE IF f.t # "rs" THEN Rej("resume end does not match")
       ELSE IF f.x # NoX THEN Rej("an exception raised during the replay was swallowed")
       ELSE Ok(Pop(st))

DoResumeX(st, e) ==
  IF st.stack = <<>> \/ Top(st).t # "rs" THEN Rej("resume failure does not match")
  ELSE LET f == Top(st) IN
       IF f.x = NoX THEN Rej("resume raised although no callback did")
       ELSE Check(f.x = e.x, "resume raised the wrong exception", Pop(st))

DoPause(st, e) == Ok([st EXCEPT !.sig[e.s].pau = TRUE])
DoBlock(st, e) == Ok([st EXCEPT !.sig[e.s].blk = TRUE])
DoUnblock(st, e) == Ok([st EXCEPT !.sig[e.s].blk = FALSE])

PushCtx(st, v) == [st EXCEPT !.ctx = Append(@, v)]
CtxIs(st, k, s) == IF st.ctx = <<>> THEN FALSE ELSE Last(st.ctx).k = k /\ Last(st.ctx).s = s
PopCtx(st) == [st EXCEPT !.ctx = Front(@)]

DoEnterBlocked(st, e) ==
  Ok([PushCtx(st, [k |-> "b", s |-> e.s, v |-> st.sig[e.s].blk]) EXCEPT !.sig[e.s].blk = TRUE])
DoExitBlocked(st, e) ==
  IF ~CtxIs(st, "b", e.s) THEN Rej("context exit does not match") ELSE
  Ok([PopCtx(st) EXCEPT !.sig[e.s].blk = Last(st.ctx).v])
DoEnterPaused(st, e) ==
  Ok([PushCtx(st, [k |-> "p", s |-> e.s, v |-> st.sig[e.s].pau]) EXCEPT !.sig[e.s].pau = TRUE])
DoExitPaused(st, e) ==
  (* only the outermost context (or none, if paused otherwise) resumes *)
  IF ~CtxIs(st, "p", e.s) THEN Rej("context exit does not match")
  ELSE IF Last(st.ctx).v THEN Ok(Push(PopCtx(st), Frame("rs", e.s)))
  ELSE Ok(BeginReplay(PopCtx(st), e.s, e.red, e.init))

(* The first callback of a group connects the group to its members, and with
   the last one that is gone again.                                        *)
RECURSIVE AttachTo(_, _, _)
AttachTo(st, g, mem) ==
  IF mem = <<>> THEN st
  ELSE LET m == Head(mem)
           r == [u |-> st.nu, c |-> "~" \o g, key |-> "~" \o g, p |-> 0, mx |-> NoLimit, dead |-> FALSE]
       IN AttachTo(IF SlotIndex(st.sig[m].slots, "~" \o g) > 0 THEN st
                   ELSE [st EXCEPT !.sig[m].slots = InsertSlot(@, r), !.nu = @ + 1], g, Tail(mem))
AttachRelay(st, s) ==
  IF s \in DOMAIN st.grp /\ Len(Live(st.sig[s].slots)) = 1 THEN AttachTo(st, s, st.grp[s].mem) ELSE st

RelaySlots(st, s) ==
  SelectSeq(st.sig[s].slots, LAMBDA sl :
    st.cb[sl.c].tgt \in DOMAIN st.grp => Live(st.sig[st.cb[sl.c].tgt].slots) # <<>>)
DetachRelays(st) ==
  IF DOMAIN st.grp = {} THEN st
  ELSE [st EXCEPT !.sig = [s \in DOMAIN @ |-> [@[s] EXCEPT !.slots = RelaySlots(st, s)]]]

EffMax(st, e) ==
  IF e.mx # NoLimit THEN e.mx ELSE IF e.cn THEN st.cb[e.c].cap ELSE NoLimit

DoConnect(st, e) ==
  LET cb == st.cb[e.c]
      have == SlotIndex(st.sig[e.s].slots, cb.key) > 0
      new == [u |-> st.nu, c |-> e.c, key |-> cb.key, p |-> e.p, mx |-> EffMax(st, e),
              dead |-> FALSE]
  IN IF cb.key = "" (* not callable *)
     THEN Check(e.r = "TypeError", "connecting something that is not callable must raise TypeError", st)
     ELSE IF e.uq # "no" /\ have
     THEN IF e.uq = "raise"
          THEN Check(e.r = "ValueError", "connect(unique='raise') must refuse a duplicate", st)
          ELSE Check(e.r = "ok", "connect(unique=True) must not fail", st)
     ELSE IF cb.unref /\ e.pol = "raise"
     THEN Check(e.r \notin {"ok"}, "an object without weak references must be refused (policy 'raise')", st)
     ELSE IF e.r # "ok" THEN Rej("a connection was refused")
     ELSE IF cb.unref /\ (e.w > 0) # (e.pol = "warn")
     THEN Rej("the warning policy for objects without weak references was not followed")
     ELSE Ok(AttachRelay([st EXCEPT !.sig[e.s].slots = InsertSlot(@, new), !.nu = @ + 1], e.s))

DoDisconnect(st, e) ==
  LET i == SlotIndex(st.sig[e.s].slots, st.cb[e.c].key)
  IN IF i = 0
     THEN Check(e.r = (IF e.mo THEN "ok" ELSE "ValueError"),
                "disconnecting something that is not connected", st)
     ELSE Check(e.r = "ok", "disconnecting a connected callback failed",
                DetachRelays([st EXCEPT !.sig[e.s].slots = RemoveAt(@, i)]))

DoDisconnectAll(st, e) == Ok(DetachRelays([st EXCEPT !.sig[e.s].slots = <<>>]))

(* number of connected callbacks; those of dead objects may still be counted
   until the next emission *)
DoLen(st, e) ==
  LET sl == st.sig[e.s].slots
  IN Check(e.n >= Len(Live(sl)) /\ e.n <= Len(sl), "len() of the signal is wrong", st)

DoIn(st, e) ==
  Check(e.r = (SlotIndex(st.sig[e.s].slots, st.cb[e.c].key) > 0),
        "membership test of the signal is wrong", st)

RECURSIVE Emitter(_, _)
Emitter(st, i) ==
  IF i = 0 THEN "none"
  ELSE IF st.stack[i].t = "em" /\ ~st.stack[i].skip
  THEN IF st.stack[i].fast THEN "any" ELSE st.stack[i].s
  ELSE Emitter(st, i - 1)

DoSender(st, e) ==
  LET em == Emitter(st, Len(st.stack))
  IN IF em = "any" THEN Ok(st)
     ELSE IF e.e # em THEN Rej("the current emitter is wrong")
     ELSE Check(e.o = (IF em = "none" THEN "none" ELSE st.sig[em].obj),
                "the sender is wrong", st)

(* an object that callbacks are bound to lost its last strong reference *)
StrongHeld(st, o) ==
  \E s \in DOMAIN st.sig : \E i \in DOMAIN st.sig[s].slots :
    LET sl == st.sig[s].slots[i] IN st.cb[sl.c].obj = o /\ st.cb[sl.c].unref
MarkDead(st, o) ==
  [st EXCEPT !.sig = [s \in DOMAIN @ |->
     [@[s] EXCEPT !.slots = [i \in DOMAIN @ |->
        IF st.cb[@[i].c].obj = o THEN [@[i] EXCEPT !.dead = TRUE] ELSE @[i]]]]]

DoKill(st, e) ==
  IF StrongHeld(st, e.o)
  THEN Check(~e.dead, "an object that can only be referenced strongly was dropped", st)
  ELSE IF \E c \in DOMAIN st.cb : st.cb[c].obj = e.o /\ st.cb[c].unref
  THEN Ok(DetachRelays(MarkDead(st, e.o)))  (* when it is dropped is not specified *)
  ELSE Check(e.dead, "a connection kept its object alive", DetachRelays(MarkDead(st, e.o)))

(* the owner of a signal lost its last strong reference *)
DoKillOwner(st, e) ==
  Check(e.dead, "a signal kept its owner alive",
        [st EXCEPT !.sig = [s \in DOMAIN @ |->
            IF @[s].obj = e.o THEN [@[s] EXCEPT !.obj = "none"] ELSE @[s]]])

(* unbounded recursion: a probe callback emitted the signal again and again *)
DoRecur(st, e) ==
  Check(e.r = "RecursionError", "unbounded recursion did not end in a recursion error", st)

(* creating a signal with an unknown mode *)
DoBadMode(st, e) == Check(e.r # "ok", "an unknown re-emission mode was accepted", st)

(***************************************************************************)
(* Groups                                                                  *)
(***************************************************************************)
SetOf(q) == {q[i] : i \in DOMAIN q}
Members(st, g) == SetOf(st.grp[g].mem)

(* silence the group and all members except the excluded ones; remember the
   state each of them had when it was first blocked *)
BlockAll(st, g, ex) ==
  LET M == Members(st, g) \ SetOf(ex)
      old == st.grp[g].saved
  IN [st EXCEPT !.sig = [s \in DOMAIN @ |->
                   IF s = g \/ s \in M THEN [@[s] EXCEPT !.blk = TRUE] ELSE @[s]],
                !.grp[g].expl = TRUE,
                !.grp[g].saved = [m \in M \cup DOMAIN old |->
                   IF m \in DOMAIN old THEN old[m] ELSE st.sig[m].blk]]
DoGBlock(st, e) == Ok(BlockAll(st, e.g, e.ex))

DoGUnblock(st, e) ==
  LET old == st.grp[e.g].saved IN
  Check(st.grp[e.g].expl, "explicit unblock without a block is not modelled",
     [st EXCEPT !.sig = [s \in DOMAIN @ |->
                   IF s = e.g THEN [@[s] EXCEPT !.blk = FALSE]
                   ELSE IF s \in DOMAIN old THEN [@[s] EXCEPT !.blk = old[s]] ELSE @[s]],
                !.grp[e.g].expl = FALSE, !.grp[e.g].saved = <<>>])

(* a blocking context gives back exactly what it found *)
DoEnterGBlocked(st, e) ==
  LET M == (Members(st, e.g) \ SetOf(e.ex)) \cup {e.g}
  IN Ok(BlockAll(PushCtx(st, [k |-> "g", s |-> e.g, grp |-> st.grp[e.g], was |-> [s \in M |-> st.sig[s].blk]]), e.g, e.ex))
DoExitGBlocked(st, e) ==
  IF ~CtxIs(st, "g", e.g) THEN Rej("context exit does not match")
  ELSE LET c == Last(st.ctx) IN
       Ok([PopCtx(st) EXCEPT !.sig = [s \in DOMAIN @ |->
                IF s \in DOMAIN c.was THEN [@[s] EXCEPT !.blk = c.was[s]] ELSE @[s]],
              !.grp[e.g] = c.grp])

(* connect to every member directly *)
RECURSIVE ConnectEach(_, _, _)
ConnectEach(st, e, mem) ==
  IF mem = <<>> THEN [ok |-> e.r = "ok", st |-> st, why |-> "a direct connection was refused"]
  ELSE LET r == DoConnect(st, [e EXCEPT !.s = Head(mem)])
       IN IF r.ok THEN ConnectEach(r.st, e, Tail(mem)) ELSE r
DoGConnectDirect(st, e) == ConnectEach(st, e, st.grp[e.s].mem)

RECURSIVE DisconnectEach(_, _, _)
DisconnectEach(st, e, mem) ==
  IF mem = <<>> THEN st
  ELSE LET r == DoDisconnect(st, [e EXCEPT !.s = Head(mem), !.mo = TRUE, !.r = "ok"])
       IN DisconnectEach(IF r.ok THEN r.st ELSE st, e, Tail(mem))
DoGDisconnect(st, e) ==
  LET all == Append(st.grp[e.s].mem, e.s)
      none == \A i \in DOMAIN all : SlotIndex(st.sig[all[i]].slots, st.cb[e.c].key) = 0
  IN IF none
     THEN Check(e.r = (IF e.mo THEN "ok" ELSE "ValueError"),
                "disconnecting something that is not connected (group)", st)
     ELSE Check(e.r = "ok", "disconnecting a callback that is connected in the group failed",
                DisconnectEach(st, e, all))
DoGDisconnectAll(st, e) ==
  Ok([st EXCEPT !.sig = [s \in DOMAIN @ |->
        IF s = e.s \/ s \in Members(st, e.s) THEN [@[s] EXCEPT !.slots = <<>>] ELSE @[s]]])

(* how the members can be reached *)
DoGShape(st, e) ==
  IF SetOf(e.names) # Members(st, e.g) \/ Len(e.names) # Len(st.grp[e.g].mem)
  THEN Rej("iterating over a group does not give its members")
  ELSE IF e.n # Len(st.grp[e.g].mem) THEN Rej("len() of the group is wrong")
  ELSE IF e.bad # <<>> THEN Rej("a member cannot be reached consistently: " \o e.bad[1])
  ELSE Ok(st)

(* declaring a group as strict *)
DoStrict(st, e) ==
  LET same == \A i, j \in DOMAIN e.sigs : e.sigs[i] = e.sigs[j] IN
  IF e.uni # same THEN Rej("the uniformity of a group is reported wrongly")
  ELSE Check((e.r = "ok") = same, "a strict group was refused although uniform, or accepted although not", st)

DoEnd(st, e) == Check(st.stack = <<>> /\ st.ctx = <<>>, "the trace ended inside a call", st)

Step(st, e) ==
  CASE e.k = "emit" -> DoEmit(st, e)
    [] e.k = "cb" -> DoCb(st, e)
    [] e.k = "ret" -> DoRet(st, e)
    [] e.k = "raise" -> DoRaise(st, e)
    [] e.k = "emitret" -> DoEmitRet(st, e)
    [] e.k = "emitx" -> DoEmitX(st, e)
    [] e.k = "resume" -> DoResume(st, e)
    [] e.k = "resumeret" -> DoResumeRet(st, e)
    [] e.k = "resumex" -> DoResumeX(st, e)
    [] e.k = "pause" -> DoPause(st, e)
    [] e.k = "block" -> DoBlock(st, e)
    [] e.k = "unblock" -> DoUnblock(st, e)
    [] e.k = "enter_blocked" -> DoEnterBlocked(st, e)
    [] e.k = "exit_blocked" -> DoExitBlocked(st, e)
    [] e.k = "enter_paused" -> DoEnterPaused(st, e)
    [] e.k = "exit_paused" -> DoExitPaused(st, e)
    [] e.k = "connect" -> DoConnect(st, e)
    [] e.k = "disconnect" -> DoDisconnect(st, e)
    [] e.k = "disconnect_all" -> DoDisconnectAll(st, e)
    [] e.k = "len" -> DoLen(st, e)
    [] e.k = "in" -> DoIn(st, e)
    [] e.k = "sender" -> DoSender(st, e)
    [] e.k = "kill" -> DoKill(st, e)
    [] e.k = "killowner" -> DoKillOwner(st, e)
    [] e.k = "recur" -> DoRecur(st, e)
    [] e.k = "badmode" -> DoBadMode(st, e)
    [] e.k = "gblock" -> DoGBlock(st, e)
    [] e.k = "gunblock" -> DoGUnblock(st, e)
    [] e.k = "enter_gblocked" -> DoEnterGBlocked(st, e)
    [] e.k = "exit_gblocked" -> DoExitGBlocked(st, e)
    [] e.k = "gconnect_direct" -> DoGConnectDirect(st, e)
    [] e.k = "gdisconnect" -> DoGDisconnect(st, e)
    [] e.k = "gdisconnect_all" -> DoGDisconnectAll(st, e)
    [] e.k = "gshape" -> DoGShape(st, e)
    [] e.k = "strict" -> DoStrict(st, e)
    [] e.k = "end" -> DoEnd(st, e)
    [] e.k = "unexpected" -> Rej("unexpected: " \o e.msg)
    [] OTHER -> Rej("unknown event " \o e.k)
=============================================================================
