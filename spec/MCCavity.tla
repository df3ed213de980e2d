---- MODULE MCCavity ----
EXTENDS Cavity
MCCavities == {[gas |-> g, th |-> t, h |-> F(1), angle |-> FMul(a, FDiv(FPi, 180)), eout |-> e, ein |-> "0.84"] :
    g \in {"Air", "Argon", "Krypton", "Xenon"}, t \in {"0.006", "0.02"}, a \in {0, 30, 60, 75, 90, 120, 180}, e \in {"0.1", "0.84"}}
====
