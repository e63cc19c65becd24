------------------------------ MODULE ProxyMCs ------------------------------
EXTENDS ProxyMC
At1(k, d) == [kind |-> k, default |-> d]
AttrS == [x |-> At1("plain", ""), dflt |-> At1("default", "d0"), conv |-> At1("conv", ""), ro |-> At1("ro", "v0")]
AttrQ == [x |-> At1("default", "d0"), conv |-> At1("conv", ""), ro |-> At1("ro", "v0")]
AttrT == AttrS @@ [picky |-> At1("picky", ""), wo |-> At1("wo", "")]
ConvD == [v2 |-> "v0"]
BadD == <<"v1">>
ValD == {"v0", "v1", "v2"}
KeyD == {"k0", "k1"}
KindsDL == <<"dict", "list">>
KindsWN == <<"wodict", "none">>
=============================================================================
