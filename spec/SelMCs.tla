------------------------------- MODULE SelMCs -------------------------------
EXTENDS SelMC
Items3 == {"a", "b", "c"}
Items4 == {"a", "b", "c", "d"}
=============================================================================
