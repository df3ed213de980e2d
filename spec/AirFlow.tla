------------------------------ MODULE AirFlow ------------------------------
(* Infiltration (crate air): at every step each space with an infiltration  *)
(* object gets an infiltration volume (m3/s) and temperature from the       *)
(* weather and its own temperature; nothing else in the state changes.      *)
EXTENDS Integers, Sequences, FiniteSets, Flt

\* EnergyPlus wind profile: exponent and boundary-layer height by terrain
Alpha(t) == CASE t = "Country" -> "0.14" [] t = "City" -> "0.33" [] t = "Ocean" -> "0.10" [] OTHER -> "0.22"
Delta(t) == CASE t = "Country" -> 270 [] t = "City" -> 460 [] t = "Ocean" -> 210 [] OTHER -> 370
WindModifier(t, h) == IF FLt(h, "1e-5") THEN F(0)
                      ELSE FMul(FPow(27, "0.14"), FPow(FDiv(h, Delta(t)), Alpha(t)))
Design(v, a, b, c, d, dT, wind) ==
    FMul(v, FAdd(FAdd(FAdd(a, FMul(b, FAbs(dT))), FMul(c, wind)), FMul(d, FMul(wind, wind))))

\* --- effective leakage area: coefficients from the building, else tabulated
Stack(b) == IF b.stack # "none" THEN b.stack
            ELSE CASE b.storeys = 1 -> "0.000145" [] b.storeys = 2 -> "0.000290" [] OTHER -> "0.000435"
WindTable == [NoObstructions |-> <<"0.000319", "0.000420", "0.000494">>,
              IsolatedRural |-> <<"0.000246", "0.000325", "0.000382">>,
              Urban |-> <<"0.000174", "0.000231", "0.000271">>,
              LargeLotUrban |-> <<"0.000104", "0.000137", "0.000161">>,
              SmallLotUrban |-> <<"0.000032", "0.000042", "0.000049">>]
Wind(b) == IF b.wind # "none" THEN b.wind
           ELSE WindTable[b.shelter][IF b.storeys \in {1, 2} THEN b.storeys ELSE 3]
\* b.state: "none" (the space names no building), "missing" (it names one that does not exist) or "ok"
\* b.storeys = -1: not given
BuildingOk(b) == /\ b.state = "ok"
                 /\ b.stack # "none" \/ b.storeys > 0
                 /\ b.wind # "none" \/ (b.storeys >= 0 /\ b.shelter # "none")
Admitted(inf, b) == inf.type = "Leakage" => BuildingOk(b)

Volume(inf, b, terrain, tin, w) ==     \* w: [t, ws]
    LET dT == FSub(tin, w.t)
        ws == FMul(w.ws, WindModifier(terrain, 1))
    IN CASE inf.type = "Constant" -> F(inf.flow)
         [] inf.type = "Blast" -> Design(inf.flow, "0.606", "0.03636", "0.1177", 0, dT, ws)
         [] inf.type = "Doe2" -> Design(inf.flow, 0, 0, "0.224", 0, dT, ws)
         [] inf.type = "Design" -> Design(inf.phi, inf.a, inf.b, inf.c, inf.d, dT, ws)
         [] inf.type = "Leakage" -> FMul(FMul(inf.area, 10), FSqrt(FAdd(FMul(Stack(b), FAbs(dT)), FMul(Wind(b), FMul(w.ws, w.ws)))))

-----------------------------------------------------------------------------
CONSTANTS Spaces, Temps, Winds, Configs, Buildings
VARIABLES cfg,     \* space -> [inf, b]  (inf.type = "none": no infiltration)
          temp,    \* space -> its temperature
          vol, tinf, \* space -> the infiltration state
          wea      \* the weather
avars == <<cfg, temp, vol, tinf, wea>>
Init == /\ cfg \in [Spaces -> {[inf |-> k, b |-> b] : k \in Configs, b \in Buildings}]
        /\ \A s \in Spaces : Admitted(cfg[s].inf, cfg[s].b)
        /\ temp \in [Spaces -> Temps] /\ wea \in [t : Temps, ws : Winds]
        /\ vol = [s \in Spaces |-> F(0)] /\ tinf = [s \in Spaces |-> F(0)]
March == /\ vol' = [s \in Spaces |-> IF cfg[s].inf.type = "none" THEN vol[s] ELSE Volume(cfg[s].inf, cfg[s].b, "Suburbs", temp[s], wea)]
         /\ tinf' = [s \in Spaces |-> IF cfg[s].inf.type = "none" THEN tinf[s] ELSE F(wea.t)]
         /\ UNCHANGED <<cfg, temp, wea>>
Other == /\ \E s \in Spaces, t \in Temps : temp' = [temp EXCEPT ![s] = t]
         /\ UNCHANGED <<cfg, vol, tinf, wea>>
Weather == wea' \in [t : Temps, ws : Winds] /\ UNCHANGED <<cfg, temp, vol, tinf>>
Next == March \/ Other \/ Weather
Spec == Init /\ [][Next]_avars

NonNegative == \A s \in Spaces : FLe(0, vol[s])
Untouched == \A s \in Spaces : cfg[s].inf.type = "none" => FEq(vol[s], 0) /\ FEq(tinf[s], 0)
\* without temperature difference and wind only the constant parts remain
Calm == [][\A s \in Spaces : vol'[s] # vol[s] /\ cfg[s].inf.type \in {"Doe2", "Leakage"} /\ temp[s] = wea.t /\ wea.ws = 0 => FEq(vol'[s], 0)]_avars
\* the same conditions give the same flow: the state carries no history
Memoryless == [][\A s, r \in Spaces : (vol' # vol /\ cfg[s] = cfg[r] /\ cfg[s].inf.type # "none" /\ temp[s] = temp[r]) => vol'[s] = vol'[r]]_avars
==============================================================================
