----------------------------- MODULE CloudsTrace -----------------------------
(* Radiation the code estimates from clouds, against Clouds *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
C == INSTANCE Clouds WITH Records <- {}, given <- <<>>, filled <- <<>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0
Same(a, b) == FClose(a, b, "1e-6", "1e-6")
\* classes something this close to an edge may be in
Classes(x, edges) == (1 + Cardinality({k \in 1..Len(edges) : FLt(FAdd(edges[k], "1e-7"), x)}))..(1 + Cardinality({k \in 1..Len(edges) : FLt(FSub(edges[k], "1e-7"), x)}))
At(x, y) == FClose(x, y, 0, "1e-7")
Discs(extra, kt, zen, pressure) ==
  (IF FLt(FSub(C!Deg(80), "1e-7"), zen) \/ FLt(kt, "1e-12") THEN {F(0)} ELSE {}) \cup
  (IF FLt(FAdd(C!Deg(80), "1e-7"), zen) \/ FLt(kt, "-1e-12") THEN {}
   ELSE UNION { { C!Beam(extra, k, FDiv(FMul(C!AirMass(zen), pressure), 101300), clear) : clear \in (IF At(k, "0.6") THEN BOOLEAN ELSE {FLt("0.6", k)}) } : k \in {C!Clamp(kt)} })
\* with the neighbour missing, what is known may count for one or for half; with none, the stability is unknown or perfect
Stabilities(kp, near, known) == IF Len(near) = 2 THEN Classes(C!Stability(kp, near), C!DeltaEdges)
                                ELSE IF Len(near) = 1 THEN Classes(C!Stability(kp, near), C!DeltaEdges) \cup Classes(C!Stability(kp, near \o near), C!DeltaEdges)
                                ELSE {1, 7}
Directs(z, extra, global, others, pressure, dew) ==
  UNION { IF FLt(FAdd(C!Deg(80), "1e-7"), zen) THEN {F(0)}
          ELSE UNION { { FMul(C!Coef(a, b, s, w), d) : a \in Classes(kp, C!KtEdges), b \in Classes(zen, C!ZenEdges), w \in Classes(C!Water(dew), C!WaterEdges), s \in Stabilities(kp, near, 0),
                                                       d \in Discs(extra, kt, zen, pressure) }
                       : near \in {TLCEval([j \in 1..Len(others) |-> C!Even(FDiv(FDiv(others[j][1], z), others[j][2]), m)])},
                         kt \in {C!Clamp(FDiv(FDiv(global, z), extra))}, kp \in {C!Clamp(C!Even(C!Clamp(FDiv(FDiv(global, z), extra)), m))} }
          : zen \in {C!Zenith(z)}, m \in {FDiv(FMul(C!AirMass(C!Zenith(z)), pressure), 101300)} }
Seen(z) == FLt(0, z)
\* a record filled by the code
Filled ==
  /\ Event("filled")
  /\ E.res = "ok" /\ E.kept
  /\ IF ~E.up THEN FEq(E.out[1], 0) /\ FEq(E.out[2], 0) /\ FEq(E.out[3], 0)
     ELSE /\ Same(E.out[3], C!Global(E.z, E.cloud, E.warming, E.wind, E.hum))
          /\ IF FLe(E.z, "1e-9") THEN FIsFinite(E.out[1]) /\ FIsFinite(E.out[2])
             ELSE IF \E d \in Directs(E.z, E.extra, C!Global(E.z, E.cloud, E.warming, E.wind, E.hum), E.others, E.pressure, E.dew) : Same(E.out[1], d) THEN TRUE ELSE FALSE
          /\ Same(E.out[2], FMax(0, FSub(E.out[3], FMul(E.out[1], E.z))))
Direct ==
  /\ Event("direct") /\ E.res = "ok"
  /\ IF \E d \in Directs(E.z, E.extra, E.global, E.others, E.pressure, E.dew) : Same(E.out, d) THEN TRUE ELSE FALSE
Disc ==
  /\ Event("disc") /\ E.res = "ok"
  /\ Same(E.kt, FDiv(E.normal, E.extra))
  /\ IF \E d \in Discs(E.extra, FDiv(E.normal, E.extra), C!Zenith(E.z), E.pressure) : Same(E.out, d) THEN TRUE ELSE FALSE
Erbs(kt) == IF FLe(kt, "0.22") THEN FSub(1, FMul("0.09", kt)) ELSE IF FLt("0.8", kt) THEN F("0.165") ELSE C!Poly(kt, <<"0.9511", "-0.1604", "4.388", "-16.638", "12.336">>)
Fraction == Event("fraction") /\ FClose(E.out, Erbs(E.kt), "1e-9", "1e-9")
Done == i = Len(Trace) /\ UNCHANGED i
Next == Filled \/ Direct \/ Disc \/ Fraction \/ Done
Spec == Init /\ [][Next]_i
===============================================================================
