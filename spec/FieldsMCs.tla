------------------------------ MODULE FieldsMCs ------------------------------
EXTENDS FieldsMC
None == {}
EqT == [i0 |-> <<"i0">>, i1 |-> <<"i1", "t1">>, t1 |-> <<"i1", "t1">>, none |-> <<"none">>] @@ ("(" :> <<"(">>)
IsT == [x \in DOMAIN EqT |-> <<x>>]
EQ == [eq |-> EqT, is |-> IsT, list |-> EqT]
Conv == [i0 |-> "i0", i1 |-> "i1", t1 |-> "t1"]
F(sigs) == [kind |-> "field", cmp |-> "eq", sigs |-> sigs, conv |-> Conv]
Tab == [i0 |-> "i0", i1 |-> "i1", t1 |-> "i1"]
PMap(sigs) == [kind |-> "prop", cmp |-> "eq", sigs |-> sigs, get |-> "map", set |-> "no", of |-> <<"a">>, tab |-> Tab]
PTup(sigs) == [kind |-> "prop", cmp |-> "eq", sigs |-> sigs, get |-> "tuple", set |-> "tuple", of |-> <<"a", "b">>]
PSame(sigs, f) == [kind |-> "prop", cmp |-> "eq", sigs |-> sigs, get |-> "same", set |-> "same", of |-> <<f>>]
Item(n, v) == [n |-> n, sub |-> FALSE, v |-> <<v>>]

(* -- an evented dataclass: an alias, an excluded field, a field compared by identity, two groups *)
DataCls ==
  [attrs |-> [a |-> F(<<"events:a", "ev2:a">>), b |-> [F(<<"events:bb", "ev2:b">>) EXCEPT !.cmp = "is"], x |-> F(<<>>), p |-> PSame(<<>>, "b")],
   groups |-> [events |-> <<"events:a", "events:bb">>, ev2 |-> <<"ev2:a", "ev2:b">>],
   deps |-> <<>>, old |-> TRUE, deferred |-> FALSE, latest |-> FALSE, reset |-> <<>>]
HData == [classes |-> [D |-> DataCls], eq |-> EQ]
V0 == [a |-> <<"i0">>, b |-> <<"i0">>]
OData == <<[o |-> "o1", cls |-> "D", v |-> V0 @@ [x |-> <<"i0">>]], [o |-> "o2", cls |-> "D", v |-> V0 @@ [x |-> <<"i1">>]]>>
L(o, sig, grp, id) == [o |-> o, sig |-> sig, group |-> grp, id |-> id]
SubData == {<<L("o1", "events:a", "events", "L1"), L("o1", "", "events", "L2"), L("o1", "ev2:b", "ev2", "L3"), L("o2", "events:bb", "events", "L4")>>,
            <<L("o1", "", "events", "L1"), L("o1", "", "ev2", "L2"), L("o2", "", "events", "L3")>>, <<>>}
SetData == [o : {"o1", "o2"}, n : {"a", "b", "x", "p"}, v : {<<"i0">>, <<"i1">>, <<"t1">>, <<"bad">>}]
SetData1 == [o : {"o1"}, n : {"a", "b", "p"}, v : {<<"i0">>, <<"i1">>, <<"t1">>, <<"bad">>}]

(* -- a model with dependent properties *)
DepCls(latest) ==
  [attrs |-> [a |-> F(<<"events:a">>), b |-> F(<<"events:b">>), p |-> PMap(<<"events:p">>), q |-> PTup(<<"events:q">>), s |-> PSame(<<"events:s">>, "b")],
   groups |-> [events |-> <<"events:a", "events:b", "events:p", "events:q", "events:s">>],
   deps |-> [a |-> <<"p", "q">>, b |-> <<"q", "s">>], old |-> FALSE, deferred |-> TRUE, latest |-> latest,
   reset |-> <<Item("a", "i0"), Item("b", "i0")>>]
HDep == [classes |-> [M |-> DepCls(TRUE)], eq |-> EQ]
HDepI == [classes |-> [M |-> DepCls(FALSE)], eq |-> EQ]
HProp == [classes |-> [M |-> [DepCls(TRUE) EXCEPT !.deps = <<>>, !.deferred = FALSE]], eq |-> EQ]
ODep == <<[o |-> "o1", cls |-> "M", v |-> V0]>>
SubDep == {<<L("o1", "events:a", "events", "L1"), L("o1", "", "events", "L2"), L("o1", "events:q", "events", "L3")>>,
           <<L("o1", "events:p", "events", "L1"), L("o1", "events:s", "events", "L2"), L("o1", "events:b", "events", "L3")>>,
           <<L("o1", "", "events", "L1")>>}
SubDep1 == {<<L("o1", "events:a", "events", "L1"), L("o1", "", "events", "L2"), L("o1", "events:s", "events", "L3")>>,
           <<L("o1", "events:p", "events", "L1"), L("o1", "events:b", "events", "L3")>>}
SubDep2 == {<<L("o1", "events:a", "events", "L1"), L("o1", "events:s", "events", "L2")>>, <<L("o1", "", "events", "L1")>>}
SetDep2 == [o : {"o1"}, n : {"a", "s"}, v : {<<"i0">>, <<"i1">>}] \cup [o : {"o1"}, n : {"q"}, v : {<<"(", "i1", "i1">>}]
SetDep == [o : {"o1"}, n : {"a", "b", "s"}, v : {<<"i0">>, <<"i1">>, <<"t1">>, <<"bad">>}]
          \cup [o : {"o1"}, n : {"q"}, v : {<<"(", "i1", "i1">>, <<"(", "i1", "i0">>, <<"(", "i0", "bad">>, <<"(", "i1">>}] \cup [o : {"o1"}, n : {"p"}, v : {<<"i1">>}]
SetDep1 == [o : {"o1"}, n : {"a", "b", "s"}, v : {<<"i0">>, <<"i1">>}] \cup [o : {"o1"}, n : {"q"}, v : {<<"(", "i1", "i1">>}]
U(items) == [o |-> "o1", items |-> items, rec |-> TRUE]
UpdDep1 == {U(<<Item("b", "i1"), Item("a", "i1")>>), U(<<[n |-> "q", sub |-> FALSE, v |-> <<"(", "i1", "i1">>]>>)}
UpdDep == {U(<<Item("a", x), Item("b", y)>>) : x, y \in {"i0", "i1"}} \cup {U(<<Item("b", "i1"), Item("a", "bad")>>),
            U(<<[n |-> "q", sub |-> FALSE, v |-> <<"(", "i1", "i1">>]>>), U(<<Item("s", "i1"), Item("a", "i1")>>)}

(* -- a model in a model *)
SubCls == [attrs |-> [a |-> F(<<"events:a">>), b |-> F(<<"events:b">>)], groups |-> [events |-> <<"events:a", "events:b">>],
           deps |-> <<>>, old |-> FALSE, deferred |-> FALSE, latest |-> TRUE, reset |-> <<Item("a", "i0"), Item("b", "i0")>>]
OuterCls == [attrs |-> [a |-> F(<<"events:a">>), s |-> F(<<"events:s">>)], groups |-> [events |-> <<"events:a", "events:s">>],
             deps |-> <<>>, old |-> FALSE, deferred |-> FALSE, latest |-> TRUE,
             reset |-> <<Item("a", "i0"), [n |-> "s", sub |-> TRUE, v |-> <<Item("a", "i1"), Item("b", "i0")>>]>>]
HSub == [classes |-> [S |-> SubCls, O |-> OuterCls], eq |-> EQ]
OSub == <<[o |-> "s1", cls |-> "S", v |-> V0], [o |-> "s2", cls |-> "S", v |-> V0 @@ <<>>], [o |-> "o1", cls |-> "O", v |-> [a |-> <<"i0">>, s |-> <<"@", "s1">>]]>>
SubSub == {<<L("o1", "", "events", "L1"), L("s1", "", "events", "L2"), L("s1", "events:a", "events", "L3")>>,
           <<L("o1", "events:s", "events", "L1"), L("o1", "events:a", "events", "L2"), L("s2", "", "events", "L3")>>}
SetSub == [o : {"o1"}, n : {"s"}, v : {<<"@", "s1">>, <<"@", "s2">>}] \cup [o : {"o1"}, n : {"a"}, v : {<<"i1">>, <<"bad">>}]
          \cup [o : {"s1", "s2"}, n : {"a"}, v : {<<"i1">>, <<"t1">>}]
UpdSub == {U(<<Item("a", x), [n |-> "s", sub |-> TRUE, v |-> <<Item("a", y), Item("b", z)>>]>>) : x, y, z \in {"i0", "i1"}}
=============================================================================
