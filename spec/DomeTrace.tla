------------------------------ MODULE DomeTrace ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Flt
D == INSTANCE Dome WITH Divisions <- {}, m <- 0, row <- 0, col <- 0, covered <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0
Vec(q) == [x |-> F(q[1]), y |-> F(q[2]), z |-> F(q[3])]
Near(a, b) == FClose(a, b, "1e-9", "1e-9")
Same(q, v) == Near(q[1], v.x) /\ Near(q[2], v.y) /\ Near(q[3], v.z)
Division == Event("division") /\ E.bins = D!NBins(E.m) /\ E.field = D!NBins(E.m)
Patch == /\ Event("patch") /\ Same(E.dir, D!Centre(E.m, E.bin)) /\ Near(E.area, D!Area(E.m, E.bin)) /\ E.back = E.bin
\* a direction, up to the width of an edge
Slack == "1e-9"
Point == /\ Event("point")
         /\ LET v == Vec(E.dir) IN
            IF FLt(v.z, FNeg(Slack)) THEN E.bin = D!Ground
            ELSE \/ FClose(v.z, 0, 0, Slack) /\ E.bin = D!Ground
                 \/ \E da \in {"0", Slack, "-1e-9"}, dz \in {"0", Slack, "-1e-9"} :
                      LET az == FAdd(D!Azimuth(v), dz) IN
                      E.bin = D!BinAt(E.m, FMax(0, FAdd(D!Altitude(v), da)), IF FLt(az, 0) THEN FAdd(az, FMul(2, FPi)) ELSE az)
\* there is no sky without divisions, nor a patch beyond the cap
Refused == Event("refused") /\ E.panic
Done == i = Len(Trace) /\ UNCHANGED i
Next == Division \/ Patch \/ Point \/ Refused \/ Done
Spec == Init /\ [][Next]_i
==============================================================================
