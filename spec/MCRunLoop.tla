---- MODULE MCRunLoop ----
EXTENDS RunLoop
NoB == [state |-> "none", stack |-> "none", wind |-> "none", storeys |-> -1, shelter |-> "none"]
Missing == [NoB EXCEPT !.state = "missing"]
Sp(inf, b, vol) == [vol |-> vol, inf |-> inf, b |-> b, t |-> 2, v |-> 3, vt |-> 4]
MCHouses == {[spaces |-> <<Sp(i, NoB, v)>>, devs |-> <<[target |-> 1, idx |-> 1]>>, terrain |-> "Suburbs"] :
                i \in {[type |-> "none"], [type |-> "Constant", flow |-> "0.1"], [type |-> "Blast", flow |-> "0.1"]}, v \in {"none", "60"}}
            \cup {[spaces |-> <<Sp([type |-> "Leakage", area |-> "0.05"], Missing, "60")>>, devs |-> <<>>, terrain |-> "City"]}
R(x, t, w) == [x |-> F(x), t |-> t, ws |-> w]
MCWeathers == {<<R("0.0", 10, 0), R("0.05", 15, 4)>>, <<R("364.97", 5, 2), R("0.01", 30, 1), R("0.05", 0, 3)>>, <<R("100.1", 10, 0), R("100.12", 15, 4)>>}
Heater(val) == <<[get |-> 2, cmp |-> "<", val |-> val, set |-> 1, from |-> 0, gain |-> "0", off |-> "1000"],
                 [get |-> 2, cmp |-> ">", val |-> val, set |-> 1, from |-> 0, gain |-> "0", off |-> "0"]>>
Prop == <<[get |-> 0, cmp |-> "<", val |-> "0", set |-> 1, from |-> 2, gain |-> "-100", off |-> "2000"]>>
Alarm == <<[get |-> 2, cmp |-> "<", val |-> "16", set |-> 0, from |-> 0, gain |-> "0", off |-> "0"]>>
MCScripts == {<<>>, Heater("20"), Prop, Alarm, Prop \o Alarm}
MCNs == {0, 1, 4, 61}
MCFails == {-1, 0, 2}
MCInitial == <<F(0), F(22), F(0), F(0)>>
\* the thermostat switches on what was last reported
NoAlarm == script = Alarm /\ phase = "physics" => FLe(16, seen[2])
Thermostat == script = Heater("20") /\ phase = "physics" => FEq(s[1], IF FLt(seen[2], 20) THEN 1000 ELSE 0)
====
