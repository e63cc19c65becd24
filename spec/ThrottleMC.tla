----------------------------- MODULE ThrottleMC -----------------------------
(* All histories of a throttled / debounced function in discrete time, with  *)
(* timers that may run late, and operations from inside the function:        *)
(* the timing contract, stated over the history of calls and executions.     *)
EXTENDS ThrottleCore

CONSTANTS Kind, Leading, Period, MaxNow, MaxCalls, MaxRuns
VARIABLES st, n, lastCall, cancelled, ran, starts, lastEnd, quiet, late
vars == <<st, n, lastCall, cancelled, ran, starts, lastEnd, quiet, late>>

Init ==
  /\ st = InitSt([kind |-> Kind, leading |-> Leading, T |-> Period])
  /\ n = 0            (* calls so far: the arguments of the k-th are k *)
  /\ lastCall = 0     (* its time *)
  /\ cancelled = TRUE (* no call since the last cancel *)
  /\ ran = {}         (* executed calls *)
  /\ starts = -100    (* start of the last execution (other than by flush), *)
  /\ lastEnd = -100   (* and end (-100: never, or a cancel came later) *)
  /\ quiet = FALSE    (* the call in progress came while nothing was waiting *)
  /\ late = {}        (* timers that expired, and have not run yet *)

Idle == st.stack = <<>>
Owes == ~Idle /\ Top(st).must # <<>>
InRun == ~Idle /\ Top(st).op = "run"
Free == Idle \/ (InRun /\ Len(st.stack) <= 2 * MaxRuns)
Apply(e) == LET r == Step(st, e) IN r.ok /\ st' = r.st
(* flush and cancel end the promise about the distance of executions *)
Do(e) == Apply(e)

TickA ==
  /\ Free /\ st.now < MaxNow
  /\ late' = IF st.until = st.now /\ st.until # 0 THEN late \cup {st.until} ELSE late
  /\ Do([k |-> "tick", now |-> st.now + 1, late |-> SetToSeq(late')])
  /\ UNCHANGED <<n, lastCall, cancelled, ran, starts, lastEnd, quiet>>
CallA ==
  /\ Free /\ n < MaxCalls
  /\ Do([k |-> "call", a |-> n + 1])
  /\ n' = n + 1 /\ lastCall' = st.now /\ cancelled' = FALSE /\ quiet' = ~Waiting(st)
  /\ UNCHANGED <<ran, starts, lastEnd, late>>
CancelA ==
  /\ Free /\ Do([k |-> "cancel"])
  /\ cancelled' = TRUE /\ starts' = -100 /\ lastEnd' = -100
  /\ UNCHANGED <<n, lastCall, ran, quiet, late>>
FlushA == Free /\ Do([k |-> "flush"]) /\ UNCHANGED <<n, lastCall, cancelled, ran, starts, lastEnd, quiet, late>>
FireA == Free /\ \E d \in late \cup (IF st.until = st.now THEN {st.until} ELSE {}) :
  /\ d # 0
  /\ Do([k |-> "fire", due |-> d])
  /\ late' = late \ {d}
  /\ UNCHANGED <<n, lastCall, cancelled, ran, starts, lastEnd, quiet>>
RunA ==
  /\ Owes /\ Do([k |-> "run", a |-> Top(st).must[1]])
  /\ ran' = ran \cup {Top(st).must[1]} /\ starts' = IF Top(st).op = "flush" THEN starts ELSE st.now
  /\ UNCHANGED <<n, lastCall, cancelled, lastEnd, quiet, late>>
EndRunA ==
  /\ InRun /\ \E r \in {"ok", "boom"} : Do([k |-> "endrun", r |-> r])
  /\ lastEnd' = st.now
  /\ UNCHANGED <<n, lastCall, cancelled, ran, starts, quiet, late>>
RetA ==
  /\ ~Idle /\ ~InRun /\ ~Owes
  /\ Do([k |-> "ret", op |-> Top(st).op, r |-> IF Top(st).boom THEN "boom" ELSE "ok"])
  /\ UNCHANGED <<n, lastCall, cancelled, ran, starts, lastEnd, quiet, late>>
Next == TickA \/ CallA \/ CancelA \/ FlushA \/ FireA \/ RunA \/ EndRunA \/ RetA
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Starts == Len(st'.stack) > Len(st.stack) /\ st'.stack[Len(st'.stack)].op = "run"
By == Top(st).op
Arg == Top(st).must[1]

(* no call is executed twice, and only the last one can be *)
Once == Starts => Arg \notin ran /\ Arg = n
(* a throttled function: executions are a timeout apart (from start to start, and from end to start) *)
Apart == (Starts /\ By # "flush" /\ Kind = "throttler") => st.now >= starts + Period /\ st.now >= lastEnd + Period
(* a debounced one: no call for the timeout, or the start of a burst *)
Silence == (Starts /\ By # "flush" /\ Kind = "debouncer") =>
  \/ st.now >= lastCall + Period
  \/ Leading /\ By = "call" /\ st.now = lastCall /\ quiet
(* the start of a burst is executed at once with the leading policy, and waits with the trailing one *)
AtOnce == (By = "call" /\ Starts) => Leading /\ quiet
(* no execution without a call since the last cancel *)
NoneAfterCancel == Starts => ~cancelled
PHistory == [][Once /\ Apart /\ Silence /\ NoneAfterCancel]_vars
PAtOnce == [][Idle \/ AtOnce]_vars

(* a waiting call has a timeout that will expire, at the latest a timeout after the last event *)
InvWaits == st.pend # <<>> =>
  \/ st.until > 0 /\ st.until <= Max2(lastCall, lastEnd) + Period
  \/ st.until > 0 /\ Kind = "throttler" /\ st.until <= st.now + Period
  \/ \E i \in DOMAIN st.stack : st.stack[i].op \in {"run", "fire"}
(* nothing is lost: once nothing is waited for, the last call has been executed or cancelled *)
InvNoLoss == (Idle /\ st.until = 0 /\ n > 0) => n \in ran \/ cancelled
InvPend == st.pend # <<>> => st.pend = <<n>> /\ n \notin ran /\ ~cancelled
InvStack == Idle => st.until >= 0
(* in the leading policy a call in a quiet period does not wait *)
InvLead == (Leading /\ Idle /\ n = 1 /\ ~cancelled) => ran = {1}
=============================================================================
