-------------------------------- MODULE MonMC --------------------------------
(* Histories of monitors, connections and emissions of one object with a public  *)
(* and a private signal and a group of two.  Reports are offered, right and wrong  *)
(* ones; what the specification accepts is judged by the ghosts: who was to hear   *)
(* of which emission (`want`), who heard (`got`), and what is connected (`conn`).  *)
EXTENDS MonCore

CONSTANTS NMon, NCb, NEmit, NSteps, Nested, Holds
VARIABLES st, want, got, conn, made, n, cnt
vars == <<st, want, got, conn, made, n, cnt>>

Sigs == <<[id |-> "p", vis |-> "pub", relay |-> "", members |-> <<>>], [id |-> "q", vis |-> "priv", relay |-> "", members |-> <<>>],
          [id |-> "a", vis |-> "no", relay |-> "r", members |-> <<>>], [id |-> "b", vis |-> "no", relay |-> "r", members |-> <<>>],
          [id |-> "r", vis |-> "pub", relay |-> "", members |-> <<"a", "b">>]>>
Plain == {"p", "q", "a"}
RelayOf == [s \in {"p", "q", "a", "b", "r"} |-> IF s \in {"a", "b"} THEN "r" ELSE ""]
Visible(priv) == IF priv THEN {"p", "q", "r"} ELSE {"p", "r"}

M(i) == "m" \o ToString(i)
C(i) == "c" \o ToString(i)
A(i) == <<ToString(i)>>
Used == DOMAIN st.mon
Active == {m \in Used : m \in Range(st.glob) \/ made[m].on}
ObjMons == {m \in Used : made[m].on /\ ~made[m].glob}

Init == /\ st = NewObj(InitSt(<<>>), [o |-> "o", sigs |-> Sigs])
        /\ want = {} /\ got = <<>> /\ conn = {} /\ made = <<>> /\ n = 0 /\ cnt = 0

(* who is to hear of the emission number i of s, as things are *)
Wants(s, i) ==
  {<<m, s, A(i), FALSE>> : m \in {x \in ObjMons : s \in Visible(made[x].priv)}}
  \cup (IF RelayOf[s] = "" \/ st.sig["r"].paused THEN {} ELSE {<<m, "r", <<s>> \o A(i), TRUE>> : m \in {x \in ObjMons : "r" \in Visible(made[x].priv)}})
  \cup (IF st.glob = <<>> THEN {} ELSE {<<Last(st.glob), s, A(i), FALSE>>})

Do(e) == LET r == Step(st, e) IN r.ok /\ st' = r.st
Idle == st.fr = <<>>
Busy(s) == \E i \in DOMAIN st.fr : st.fr[i].t = "emit" /\ TRUE
InCb == st.fr # <<>> /\ Head(st.fr).t = "cb"
Steps == n < NSteps /\ n' = n + 1

Mon(o, priv) == /\ Steps /\ (Idle \/ (Nested /\ InCb /\ o = ""))
                /\ Cardinality(Used) < NMon
                /\ LET m == M(Cardinality(Used) + 1) IN
                   /\ Do([k |-> "mon", m |-> m, o |-> o, priv |-> priv, bad |-> "", r |-> "ok"])
                   /\ made' = (m :> [on |-> TRUE, glob |-> o = "", priv |-> priv]) @@ made
                /\ UNCHANGED <<want, got, conn, cnt>>
Unmon(m) == /\ Steps /\ Idle /\ made[m].on
            /\ made[m].glob => Last(st.glob) = m
            /\ Do([k |-> "unmon", m |-> m])
            /\ made' = [made EXCEPT ![m].on = FALSE]
            /\ UNCHANGED <<want, got, conn, cnt>>
Con(s) == /\ Steps /\ Idle /\ Cardinality(conn) < NCb
          /\ LET i == CHOOSE j \in 1..NCb : \A x \in conn : x[2] # C(j) IN
             /\ Do([k |-> "con", sig |-> s, id |-> C(i)]) /\ conn' = conn \cup {<<s, C(i)>>}
          /\ UNCHANGED <<want, got, made, cnt>>
Dis(x) == /\ Steps /\ Idle /\ Do([k |-> "dis", sig |-> x[1], id |-> x[2]]) /\ conn' = conn \ {x} /\ UNCHANGED <<want, got, made, cnt>>
Emit(s) == /\ Steps /\ cnt < NEmit /\ (Idle \/ (Nested /\ InCb /\ Len(st.fr) < 4))
           /\ cnt' = cnt + 1
           /\ Do([k |-> "emit", what |-> <<[sig |-> s, a |-> A(cnt + 1)]>>])
           /\ want' = IF st.sig[s].paused \/ st.sig[s].blocked THEN want ELSE want \cup Wants(s, cnt + 1)
           /\ UNCHANGED <<got, conn, made>>
Hold(s, w) == /\ Holds /\ Steps /\ Idle
              /\ CASE w = "pause" -> ~st.sig[s].paused /\ ~st.sig[s].blocked
                   [] w = "block" -> ~st.sig[s].paused /\ ~st.sig[s].blocked /\ s # "r"
                   [] w = "unblock" -> st.sig[s].blocked
              /\ Do([k |-> "hold", sig |-> s, what |-> w]) /\ UNCHANGED <<want, got, conn, made, cnt>>
Resume(s) == /\ Holds /\ Steps /\ Idle /\ st.sig[s].paused
             /\ Do([k |-> "resume", sig |-> s])
             /\ want' = want \cup (IF s = "r" THEN {<<m, "r", st.sig["r"].held[i][1], TRUE>> : m \in ObjMons, i \in DOMAIN st.sig["r"].held}
                                   ELSE UNION {Wants(s, CHOOSE j \in 1..NEmit : A(j) = st.sig[s].held[i][1]) : i \in DOMAIN st.sig[s].held})
             /\ UNCHANGED <<got, conn, made, cnt>>
Reported(m, s, a, rel) == /\ ~Idle /\ Do([k |-> "rep", m |-> m, sig |-> s, a |-> a, rel |-> rel]) /\ got' = Append(got, <<m, s, a, rel>>)
                          /\ UNCHANGED <<want, conn, made, n, cnt>>
Called(i) == ~Idle /\ Do([k |-> "cb", id |-> i]) /\ UNCHANGED <<want, got, conn, made, n, cnt>>
CbEnd == InCb /\ Do([k |-> "cbend"]) /\ UNCHANGED <<want, got, conn, made, n, cnt>>
Done == ~Idle /\ Do([k |-> "done", r |-> "ok"]) /\ UNCHANGED <<want, got, conn, made, n, cnt>>

Next == \/ \E o \in {"", "o"}, priv \in BOOLEAN : (o = "" => ~priv) /\ Mon(o, priv)
        \/ \E m \in Used : Unmon(m)
        \/ \E s \in {"p", "q", "a", "r"} : Con(s)
        \/ \E x \in conn : Dis(x)
        \/ \E s \in Plain : Emit(s)
        \/ \E s \in {"p", "a", "r"}, w \in {"block", "unblock", "pause"} : Hold(s, w)
        \/ \E s \in {"p", "a", "r"} : Resume(s)
        \/ \E m \in Used, i \in 1..cnt : (\E s \in Plain : Reported(m, s, A(i), FALSE)) \/ (\E s \in Plain : Reported(m, "r", <<s>> \o A(i), TRUE))
        \/ \E i \in 1..NCb : Called(C(i))
        \/ CbEnd \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* every emission is reported exactly once to those who were to hear of it, and to nobody else *)
Exactly == /\ Range(got) \subseteq want
           /\ \A i, j \in DOMAIN got : i # j => got[i] # got[j]
           /\ Idle => Range(got) = want
(* the reports to one monitor are in the order of the emissions it heard of (nothing is held back or nested) *)
Num(x) == CHOOSE j \in 1..NEmit : A(j) = <<Last(x[3])>>
InOrder == (~Nested /\ ~Holds) => \A i, j \in DOMAIN got : (i < j /\ got[i][1] = got[j][1]) => Num(got[i]) <= Num(got[j])
(* connections: those of the callbacks and of the active monitors, and the group's as long as it has some *)
Conns(s) == Cardinality({x \in conn : x[1] = s}) + Cardinality({m \in ObjMons : s \in Visible(made[m].priv)})
Counts == \A s \in {"p", "q", "a", "b", "r"} : Len(st.sig[s].slots) = Conns(s) + (IF RelayOf[s] # "" /\ Conns("r") > 0 THEN 1 ELSE 0)
(* an emission that is over leaves nothing to be done *)
CanEnd == (st.fr # <<>> /\ Head(st.fr).t = "emit") => (Head(st.fr).due # <<>> \/ Step(st, [k |-> "done", r |-> "ok"]).ok)
=============================================================================
