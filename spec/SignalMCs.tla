----------------------------- MODULE SignalMCs -----------------------------
(* Constants of the configurations of SignalMC. *)
EXTENDS SignalMC

Modes_C01 == <<"immediate">>
Connected_C01 == <<<<"s1", "f1", 0>>, <<"s1", "f2", 0>>>>
Modes_C01t == <<"immediate">>
Connected_C01t == <<<<"s1", "f1", 0>>, <<"s1", "f2", 0>>, <<"s1", "f3", 1>>>>
Modes_C02 == <<"immediate">>
Connected_C02 == <<>>
Modes_C03i == <<"immediate">>
Connected_C03i == <<<<"s1", "f1", 0>>, <<"s1", "f2", 0>>>>
Modes_C03q == <<"queued">>
Connected_C03q == <<<<"s1", "f1", 0>>, <<"s1", "f2", 0>>>>
Modes_C03l == <<"latest-only">>
Connected_C03l == <<<<"s1", "f1", 0>>, <<"s1", "f2", 0>>>>
Modes_C03qt == <<"queued">>
Connected_C03qt == <<<<"s1", "f1", 0>>, <<"s1", "f2", 0>>, <<"s1", "f3", 0>>>>
Modes_C03lt == <<"latest-only">>
Connected_C03lt == <<<<"s1", "f1", 0>>, <<"s1", "f2", 0>>, <<"s1", "f3", 0>>>>
Modes_C04 == <<"immediate">>
Connected_C04 == <<<<"s1", "f1", 0>>>>
Modes_C04t == <<"immediate">>
Connected_C04t == <<<<"s1", "f1", 0>>, <<"s1", "f2", 0>>>>
Modes_C04q == <<"queued">>
Connected_C04q == <<<<"s1", "f1", 0>>, <<"s1", "f2", 0>>>>
Modes_C05 == <<"queued", "immediate">>
Connected_C05 == <<<<"s1", "f1", 0>>, <<"s1", "relay", 0>>, <<"s2", "f2", 0>>>>
Modes_C05t == <<"latest-only", "queued">>
Connected_C05t == <<<<"s1", "f1", 0>>, <<"s1", "relay", 0>>, <<"s2", "f2", 0>>, <<"s1", "f2", 0>>>>
Modes_C06 == <<"immediate", "queued">>
Connected_C06 == <<<<"s1", "f1", 0>>, <<"s1", "relay", 0>>, <<"s2", "f2", 0>>>>
Modes_C07 == <<"immediate">>
Connected_C07 == <<<<"s1", "f1", 0>>, <<"s1", "o1", 0>>, <<"s1", "o2", 0>>>>
Modes_C07t == <<"queued">>
Connected_C07t == <<<<"s1", "f1", 0>>, <<"s1", "o1", 0>>, <<"s1", "o2", 0>>, <<"s1", "o3", 0>>>>
=============================================================================
