------------------------------- MODULE Clouds -------------------------------
(* Solar radiation estimated from the clouds (weather/src/lib.rs, weather/src/solar/mod.rs): global radiation of Zhang and Huang with average
   coefficients, and its direct part with DISC (Maxwell) corrected by DIRINT (Ineichen, Perez et al. 1992).
   A record is filled from the others as they were given, not as they were filled. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt, Dirint
CONSTANTS Records       \* histories of records: what is known of each hour
VARIABLES given, filled
vars == <<given, filled>>
Some(S) == CHOOSE x \in S : TRUE
Poly(x, cs) == Some({FAdd(cs[1], FMul(x, FAdd(cs[2], FMul(x, FAdd(cs[3], FMul(x, FAdd(cs[4], FMul(x, cs[5]))))))))})
Deg(x) == FDiv(FMul(x, FPi), 180)
Zenith(z) == FAcos(z)
AirMass(zen) == FDiv(1, FAdd(FCos(zen), FMul("0.15", FPow(FSub("93.885", FDiv(FMul(zen, 180), FPi)), "-1.253"))))
\* global horizontal radiation: cloud and humidity are fractions; warming: temperature above the one three hours before
Global(z, cloud, warming, wind, hum) ==
  FMax(0, FSub(FMul(FMul("1367.7", z), FSum(<<"0.749833333", FMul("0.043947778", cloud), FMul("-0.28806125", FMul(cloud, cloud)), FMul("0.016512222", warming),
                                             FMul("-0.0029925", FMul(100, hum)), FMul("0.003777778", wind)>>)), "5.949946667"))
Low(zen) == FLt(Deg(80), zen)
Clamp(x) == FMin(1, FMax(0, x))
(* DISC: kt, the clearness; extra, the radiation outside of the atmosphere; m, the air mass corrected for pressure *)
Knc(m) == Poly(m, <<"0.886", "-0.122", "0.0121", "-0.000653", "0.000014">>)
Abc(kt, clear) == IF clear THEN <<Poly(kt, <<"-5.743", "21.77", "-27.49", "11.56", 0>>), Poly(kt, <<"41.4", "-118.5", "66.05", "31.9", 0>>), Poly(kt, <<"-47.01", "184.2", "-222", "73.81", 0>>)>>
                  ELSE <<Poly(kt, <<"0.512", "-1.56", "2.286", "-2.222", 0>>), Poly(kt, <<"0.37", "0.962", 0, 0, 0>>), Poly(kt, <<"-0.28", "0.932", "-2.048", 0, 0>>)>>
Beam(extra, kt, m, clear) == FMax(0, FMul(extra, FSub(Knc(m), Some({FAdd(a[1], FMul(a[2], FExp(FMul(a[3], m)))) : a \in {Abc(kt, clear)}}))))
Disc(extra, kt, zen, pressure) == IF FLt(kt, 0) \/ Low(zen) THEN F(0)
                                  ELSE Some({Beam(extra, k, FDiv(FMul(AirMass(zen), pressure), 101300), FLt("0.6", k)) : k \in {Clamp(kt)}})
(* DIRINT: classes of clearness made independent of the zenith, of zenith, of stability and of water *)
Even(kt, m) == FDiv(kt, FAdd(FMul("1.031", FExp(FDiv("-1.4", FAdd("0.9", FDiv("9.4", m))))), "0.1"))
KtEdges == <<"0.24", "0.4", "0.56", "0.7", "0.8">>
ZenEdges == <<Deg(25), Deg(40), Deg(55), Deg(70), Deg(80)>>
DeltaEdges == <<"0.015", "0.035", "0.07", "0.15", "0.3">>
WaterEdges == <<1, 2, 3>>
Class(x, edges) == 1 + Cardinality({k \in 1..Len(edges) : FLt(edges[k], x)})
Water(dew) == FExp(FSub(FMul("0.07", dew), "0.075"))
Coef(kt, zen, delta, water) == F(Table[kt][zen][delta][water])
Stability(kp, others) == IF Len(others) = 0 THEN F(0) ELSE FMin(1, FMul("0.5", FSum([j \in 1..Len(others) |-> FAbs(FSub(kp, others[j]))])))
\* a record by day, z being the height of the sun and extra what it gives outside of the atmosphere; others: global radiation and extra of the records before and after
Direct(z, extra, global, others, pressure, dew) ==
  LET zen == TLCEval(Zenith(z))  m == TLCEval(FDiv(FMul(AirMass(zen), pressure), 101300)) IN
  IF Low(zen) THEN F(0)
  ELSE LET kt == TLCEval(Clamp(FDiv(FDiv(global, z), extra)))  kp == TLCEval(Clamp(Even(kt, m)))
           near == TLCEval([j \in 1..Len(others) |-> Even(FDiv(FDiv(others[j][1], z), others[j][2]), m)])
       IN FMul(Coef(Class(kp, KtEdges), Class(zen, ZenEdges), Class(Stability(kp, near), DeltaEdges), Class(Water(dew), WaterEdges)), Disc(extra, kt, zen, pressure))
Estimate(g, k) ==
  LET c == g[k]  w == IF k > 3 THEN FSub(c.temp, g[k - 3].temp) ELSE F(0)
      others == (IF k > 1 THEN <<<<g[k - 1].global, g[k - 1].extra>>>> ELSE <<>>) \o (IF k < Len(g) THEN <<<<g[k + 1].global, g[k + 1].extra>>>> ELSE <<>>)
  IN IF ~FLt(0, c.z) THEN <<F(0), F(0), F(0)>>
     ELSE Some({ <<d, FMax(0, FSub(h, FMul(d, c.z))), h>> : <<h, d>> \in UNION { {<<h, Direct(c.z, c.extra, h, others, c.pressure, c.dew)>>} : h \in {Global(c.z, c.cloud, w, c.wind, c.hum)} } })
Init == given \in Records /\ filled = <<>>
Fill == Len(filled) < Len(given) /\ filled' = Append(filled, Estimate(given, Len(filled) + 1)) /\ UNCHANGED given
Next == Fill
Spec == Init /\ [][Next]_vars
(* ---- what holds ---- *)
Numbers == \A k \in 1..Len(filled) : \A j \in 1..3 : FIsFinite(filled[k][j]) /\ FLe(0, filled[k][j])
Night == \A k \in 1..Len(filled) : IF FLt(0, given[k].z) THEN TRUE ELSE \A j \in 1..3 : FEq(filled[k][j], 0)
\* what comes straight and what comes from the sky make up the whole
Whole == \A k \in 1..Len(filled) : LET f == filled[k] IN FLe(f[3], FAdd(FAdd(f[2], FMul(f[1], FMax(0, given[k].z))), "1e-9"))
\* the classes are found in the table, whatever the weather
Sorted == \A j \in 1..4 : LET e == <<KtEdges, ZenEdges, DeltaEdges, WaterEdges>>[j] IN \A k \in 1..Len(e) - 1 : FLt(e[k], e[k + 1])
Shape == Len(Table) = 6 /\ \A a \in 1..6 : Len(Table[a]) = 6 /\ \A b \in 1..6 : Len(Table[a][b]) = 7 /\ \A d \in 1..7 : Len(Table[a][b][d]) = 5
\* more clouds, less radiation, once there are some
Dimmer == \A z \in {"0.2", "0.9"} : \A h \in {"0.1", "0.9"} : \A c \in 1..9 : FLe(Global(z, FDiv(c + 1, 10), 0, 3, h), Global(z, FDiv(c, 10), 0, 3, h))
=============================================================================
