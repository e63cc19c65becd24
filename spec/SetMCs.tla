------------------------------- MODULE SetMCs -------------------------------
EXTENDS SetMC
ItemsQ == {"a", "b", "c"}
ItemsT == {"a", "b", "c", "d"}
=============================================================================
