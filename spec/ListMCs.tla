------------------------------ MODULE ListMCs ------------------------------
EXTENDS ListMC
Eq3 == [a |-> "x", b |-> "x", c |-> "y"]
Tok3 == {"a", "b", "c"}
StepsS == {1, -1, 2}
StepsL == {1, -1, 2, -2, 3, 0}
=============================================================================
