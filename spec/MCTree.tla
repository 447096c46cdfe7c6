---- MODULE MCTree ----
EXTENDS PyTreeMC
AllKinds == {"list", "tuple", "dict"}
FewKinds == {"list", "dict"}
OneKind == {"list"}
AllKeys == {<<"a">>, <<"b">>, <<"a", "b">>}
FewKeys == {<<"a">>}
D4 == {0, 1, 2, 3}
D3 == {1, 2, 3}
====
