------------------------ MODULE DiscretizationTrace ------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Flt
DS == INSTANCE Discretization WITH Catalogue <- {}, Steps <- {}, MaxLayers <- 0, MaxDx <- 0, MinDt <- 0,
                                   ls <- 0, dt <- 0, i <- 0, n <- 0, el <- 0, sub <- 0, done <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
Known == IF "KNOWN" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.KNOWN)[1] ELSE <<>>
VARIABLE i
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0
Near(a, b) == FClose(a, b, "1e-9", "1e-9")
SameSeg(a, b) ==
    /\ a.kind = b.kind /\ Near(a.m, b.m)
    /\ CASE a.kind = "solid" -> Near(a.u, b.u)
         [] a.kind = "cavity" -> /\ a.cav.gas = b.cav.gas /\ Near(a.cav.th, b.cav.th) /\ Near(a.cav.h, b.cav.h)
                                 /\ FClose(a.cav.angle, b.cav.angle, 0, "1e-6")
                                 /\ Near(a.cav.eout, b.cav.eout) /\ Near(a.cav.ein, b.cav.ein)
         [] OTHER -> TRUE
HasGas == \E k \in 1..Len(E.ls) : E.ls[k].g # ""
Right == /\ \E c \in DS!Choices(E.ls, E.dt, E.maxdx, E.mindt) : E.el = c.el /\ E.sub = c.sub
         /\ LET N == DS!Network(E.ls, E.el, E.h, E.angle)
            IN /\ Len(E.segs) = Len(N) /\ \A k \in 1..Len(N) : SameSeg(E.segs[k], N[k])
               /\ E.mass = DS!Runs(N, TRUE, 1) /\ E.nomass = DS!Runs(N, FALSE, 1)
               /\ IF HasGas THEN TRUE ELSE Near(E.r, DS!Resistance(N))
Discretized == /\ (Event("disc") \/ Event("built"))
               /\ IF DS!Bad(E.ls) THEN E.res = "err" ELSE E.res = "ok" /\ Right
\* between rooms at 22 and 10 degrees, a wall that starts at 22 stays in between
InRange == E.res = "ok" /\ FLe("9.9", E.lo) /\ FLe(E.hi, "22.1")
Listed(id) == \E k \in 1..Len(Known) : Known[k] = id
Calm == /\ Event("calm")
        /\ InRange \/ (Listed(E.id) /\ PrintT("KNOWN:" \o E.id))
Done == i = Len(Trace) /\ UNCHANGED i
Next == Discretized \/ Calm \/ Done
Spec == Init /\ [][Next]_i
=============================================================================
