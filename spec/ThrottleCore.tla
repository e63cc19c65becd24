---------------------------- MODULE ThrottleCore ----------------------------
(***************************************************************************)
(* Throttled and debounced functions in (virtual) time.                    *)
(*                                                                         *)
(* until: when the waiting period ends (0: not waiting; -1: waiting, the   *)
(* function is being run because it ended). pend: the call that waits for  *)
(* its execution (<<>> or <<arguments>>). stack: the operations in         *)
(* progress; must: the execution the topmost one owes (<<>> or             *)
(* <<arguments>>).                                                         *)
(***************************************************************************)
EXTENDS PySeq

Rej(why) == [ok |-> FALSE, why |-> why]
Ok(st) == [ok |-> TRUE, st |-> st]

InitSt(hdr) == [kind |-> hdr.kind, leading |-> hdr.leading, T |-> hdr.T,
                now |-> 0, until |-> 0, pend |-> <<>>, stack |-> <<>>]

Frame(op, must) == [op |-> op, must |-> must, boom |-> FALSE]
Push(st, op, must) == [st EXCEPT !.stack = Append(@, Frame(op, must))]
Top(st) == st.stack[Len(st.stack)]
Pop(st) == [st EXCEPT !.stack = Front(@)]

Waiting(st) == st.until # 0
Call(st, a) ==
  LET due == st.now + st.T
      s1 == [st EXCEPT !.pend = <<a>>] IN
  IF st.kind = "throttler"
  THEN IF Waiting(st) THEN Push(s1, "call", <<>>)
       ELSE Push([s1 EXCEPT !.until = due], "call", IF st.leading THEN <<a>> ELSE <<>>)
  ELSE Push([s1 EXCEPT !.until = due], "call", IF ~Waiting(st) /\ st.leading THEN <<a>> ELSE <<>>)
Cancel(st) == Push([st EXCEPT !.pend = <<>>, !.until = 0], "cancel", <<>>)
Flush(st) == Push(st, "flush", st.pend)
(* the end of a waiting period; due tells which one, an old one has no effect *)
Fire(st, due) ==
  IF st.until # due THEN Push(st, "fire", <<>>)
  ELSE IF st.pend = <<>> THEN Push([st EXCEPT !.until = 0], "fire", <<>>)
  ELSE Push([st EXCEPT !.until = -1], "fire", st.pend)
(* the function is entered, and left (normally or with an exception) *)
Run(st) == Push([st EXCEPT !.pend = <<>>, !.stack[Len(st.stack)].must = <<>>], "run", <<>>)
EndRun(st, boom) ==
  LET s1 == Pop([st EXCEPT !.until = st.now + st.T]) IN
  IF boom THEN [s1 EXCEPT !.stack[Len(s1.stack)].boom = TRUE] ELSE s1

-----------------------------------------------------------------------------
DoTick(st, e) ==
  LET over == st.until > 0 /\ st.until < e.now /\ st.until \notin Range(e.late) IN
  IF over /\ st.pend # <<>> THEN Rej("a waiting call was not executed when the timeout expired")
  ELSE Ok([st EXCEPT !.now = e.now, !.until = IF over THEN 0 ELSE @])

DoRun(st, e) ==
  IF st.stack = <<>> THEN Rej("the function ran outside any operation")
  ELSE IF Top(st).must = <<>>
  THEN Rej(CASE Top(st).op = "fire" -> "the function ran when no timeout had expired for a waiting call"
             [] Top(st).op = "flush" -> "flush ran the function although no call was waiting"
             [] Top(st).op = "call" -> "a call ran the function at once although it should wait"
             [] Top(st).op = "cancel" -> "cancel ran the function"
             [] OTHER -> "the function ran twice")
  ELSE IF e.a # Top(st).must[1] THEN Rej("the function ran with other arguments than those of the last call")
  ELSE Ok(Run(st))
DoRet(st, e) ==
  IF Top(st).op # e.op THEN Rej("driver: operations are not nested")
  ELSE IF Top(st).must # <<>>
  THEN Rej(CASE Top(st).op = "fire" -> "a waiting call was not executed when its timeout expired"
             [] Top(st).op = "flush" -> "flush did not execute the waiting call"
             [] OTHER -> "a call at the start of a quiet period was not executed at once")
  ELSE IF e.r # (IF Top(st).boom THEN "boom" ELSE "ok") THEN Rej("outcome of " \o e.op \o ": " \o e.r)
  ELSE Ok(Pop(st))

Step(st, e) ==
  CASE e.k = "tick" -> DoTick(st, e)
    [] e.k = "call" -> Ok(Call(st, e.a))
    [] e.k = "cancel" -> Ok(Cancel(st))
    [] e.k = "flush" -> Ok(Flush(st))
    [] e.k = "fire" -> Ok(Fire(st, e.due))
    [] e.k = "run" -> DoRun(st, e)
    [] e.k = "endrun" -> Ok(EndRun(st, e.r = "boom"))
    [] e.k = "ret" -> DoRet(st, e)
    [] e.k = "is" -> IF e.got = e.want THEN Ok(st) ELSE Rej("an attribute of the function is not kept (" \o e.what \o ")")
    [] e.k = "end" -> Ok(st)
    [] e.k = "unexpected" -> Rej("unexpected: " \o e.msg)
    [] OTHER -> Rej("unknown event " \o e.k)
=============================================================================
