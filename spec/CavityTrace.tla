---------------------------- MODULE CavityTrace ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Flt
CV == INSTANCE Cavity WITH Cavities <- {}, Temps <- {}, cav <- 0, front <- 0, back <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0
Near(a, b) == FClose(a, b, "1e-8", "1e-12")
\* properties of a gas at a temperature in K
Props == /\ Event("gas")
         /\ Near(E.k, CV!Conductivity(E.gas, E.t)) /\ Near(E.mu, CV!Viscosity(E.gas, E.t))
         /\ Near(E.cp, CV!HeatCapacity(E.gas, E.t)) /\ Near(E.rho, CV!Density(E.gas, E.t)) /\ Near(E.mass, CV!Mass(E.gas))
\* the coefficient of a cavity
U == /\ Event("u") /\ E.res = "ok"
     /\ IF CV!OnEdge(E.c, E.tf, E.tb) THEN FLt(0, E.u)
        ELSE /\ Near(E.conv, CV!Convection(E.c, E.tf, E.tb))
             /\ Near(E.u, CV!U(E.c, E.tf, E.tb))
Done == i = Len(Trace) /\ UNCHANGED i
Next == Props \/ U \/ Done
Spec == Init /\ [][Next]_i
=============================================================================
