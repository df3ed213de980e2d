----------------------------- MODULE HvacControl -----------------------------
(* The default occupant: switches every HVAC by thermostat at each step.    *)
(* A device is [kind, target, hset, hpow, cset, cpow]; "none" = not given.  *)
EXTENDS Integers, Sequences, FiniteSets, Flt
Heats(d) == d.hset # "none" /\ d.hpow # "none"
Cools(d) == d.kind = "IdealHeaterCooler" /\ d.cset # "none" /\ d.cpow # "none"
Managed(d) == d.target # "none" /\ (Heats(d) \/ Cools(d))
\* the power of device d in a space at temperature t (heat is positive, cold negative)
Power(d, t) == IF Cools(d) /\ FLt(d.cset, t) THEN FNeg(d.cpow)
               ELSE IF Heats(d) /\ FLt(t, d.hset) THEN F(d.hpow)
               ELSE F(0)
\* a device whose space is not in the model makes the controller fail
NeedsSpace(d) == IF d.kind = "ElectricHeater" THEN d.target # "none" /\ Heats(d) ELSE d.target # "none"
-----------------------------------------------------------------------------
CONSTANTS Devices, Temps
VARIABLES devs, temp, power, last
hvars == <<devs, temp, power, last>>
Init == /\ devs \in Devices \X Devices /\ temp \in [{"s1", "s2"} -> Temps]
        /\ power = [k \in 1..2 |-> F(0)] /\ last = "start"
Control == /\ power' = [k \in 1..2 |-> IF Managed(devs[k]) THEN Power(devs[k], temp[devs[k].target]) ELSE power[k]]
           /\ last' = "control" /\ UNCHANGED <<devs, temp>>
\* physics, as far as the controller can tell: temperatures drift anywhere
Drift == /\ last = "control" /\ temp' \in [{"s1", "s2"} -> Temps] /\ last' = "drift" /\ UNCHANGED <<devs, power>>
Next == Control \/ Drift
Spec == Init /\ [][Next]_hvars

Fresh == last = "control"
P(k) == power[k]
T(k) == temp[devs[k].target]
NeverHeatsAbove == Fresh => \A k \in 1..2 : FLt(0, P(k)) => Heats(devs[k]) /\ FLt(T(k), devs[k].hset)
NeverCoolsBelow == Fresh => \A k \in 1..2 : FLt(P(k), 0) => Cools(devs[k]) /\ FLt(devs[k].cset, T(k))
DeadBandOff == Fresh => \A k \in 1..2 : Managed(devs[k])
    /\ (Heats(devs[k]) => FLe(devs[k].hset, T(k))) /\ (Cools(devs[k]) => FLe(T(k), devs[k].cset)) => FEq(P(k), 0)
FullPower == \A k \in 1..2 : IF FLt(0, P(k)) THEN Heats(devs[k]) /\ FEq(P(k), devs[k].hpow)
                           ELSE IF FLt(P(k), 0) THEN Cools(devs[k]) /\ FEq(P(k), FNeg(devs[k].cpow)) ELSE TRUE
Unmanaged == \A k \in 1..2 : ~Managed(devs[k]) => FEq(P(k), 0)
\* electric heaters never cool
HeatersOnlyHeat == \A k \in 1..2 : devs[k].kind = "ElectricHeater" => FLe(0, P(k))
==============================================================================
