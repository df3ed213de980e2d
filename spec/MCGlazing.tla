---- MODULE MCGlazing ----
EXTENDS Glazing
P(t, x, y) == [tau |-> F(t), rf |-> F(x), rb |-> F(y)]
MCPanes == {P("0.8", "0.1", "0.1"), P("0.6", "0.05", "0.3"), P("0.2", "0.6", "0.1"), P(0, "0.3", "0.9"), P(1, 0, 0), P("0.4", 0, "0.6")}
====
