----------------------------- MODULE TraceFields -----------------------------
(* Validates traces recorded from the real code against FieldsCore.          *)
EXTENDS FieldsCore, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, st
vars == <<tid, l, st>>
Loc == <<tid, l>>
TraceHdr(i) == Traces[i].h

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = InitSt(tid)

Next ==
  /\ l <= Len(Traces[tid].e)
  /\ tid' = tid
  /\ LET r == Step(st, Traces[tid].e[l]) IN
     IF r.ok
     THEN /\ st' = r.st
          /\ l' = l + 1
          /\ (l = Len(Traces[tid].e)) => PrintT(<<"V", tid, "ACCEPT", l, "">>)
     ELSE /\ PrintT(<<"V", tid, "REJECT", l, r.why>>)
          /\ l' = Len(Traces[tid].e) + 1
          /\ st' = st

Spec == Init /\ [][Next]_vars
=============================================================================
