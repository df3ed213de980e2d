---- MODULE MCDiscretization ----
EXTENDS Discretization
L(k, rho, cp, th) == [g |-> "", k |-> k, rho |-> rho, cp |-> cp, th |-> th, fe |-> "none", be |-> "0.5"]
Thin == {L("0.816", "1700", "800", "0.1"), L("1.63", "2400", "900", "0.06"), L("0.0252", "17.5", "2400", "0.08"), L("45", "7850", "490", "0.005"),
         [g |-> "Air", k |-> "0", rho |-> "0", cp |-> "0", th |-> "0.02", fe |-> "none", be |-> "none"]}
MCCatalogue == Thin \cup {L("0.816", "1700", "800", "0.2"), L("0.12", "500", "1600", "0.03"), L("1", "2500", "750", "0.004"), L("45", "7850", "490", "0.3")}
MCSteps == {60, 300, 900, 3600}
====
