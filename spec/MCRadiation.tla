---- MODULE MCRadiation ----
EXTENDS Radiation
W(d, h, a, b, p) == [dry |-> d, hir |-> h, direct |-> a, diffuse |-> b, patches |-> p]
S == {W("-5", "200", "0", "0", <<"0", "0">>), W("20", "350", "0.00005", "0.00004", <<"1", "1">>), W("20", "420", "0", "100", <<"60", "40">>), W("35", "300", "800", "90", <<"40", "900">>)}
Coefs == {<<"0", "0">>, <<"0.3", "0">>, <<"0.2", "1.5">>}
====
