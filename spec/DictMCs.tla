------------------------------ MODULE DictMCs ------------------------------
EXTENDS DictMC
EqD == [a |-> "x", b |-> "x", c |-> "y", d |-> "z", v |-> "v", w |-> "v", u |-> "u", vbad |-> "vbad", kunh |-> "kunh"]
KeyS == {"a", "b", "c"}
KeyL == {"a", "b", "c", "d"}
ValS == {"v", "w"}
ValL == {"v", "w", "u"}
=============================================================================
