---- MODULE HvacControlGen ----
(* Every device of the model space, alone, at every temperature around its set points; and pairs of devices sharing a space. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
N == "none"
EH == [kind : {"ElectricHeater"}, target : {N, "s1", "missing"}, hset : {N, "20"}, hpow : {N, "1000"}, cset : {N}, cpow : {N}]
IH == [kind : {"IdealHeaterCooler"}, target : {N, "s1", "missing"}, hset : {N, "18", "20"}, hpow : {N, "1000"}, cset : {N, "20", "24"}, cpow : {N, "500"}]
Full == {d \in EH \cup IH : d.target = "s1" /\ d.hset # N /\ d.hpow # N}
Temps == {"17", "18", "18.5", "20", "22", "24", "25"}
Init == \/ \E d \in EH \cup IH : x = [devs |-> <<d>>]
        \/ \E d, e \in Full : x = [devs |-> <<d, e>>]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson([devs |-> x.devs, temps |-> <<"17", "18", "18.5", "20", "22", "24", "25">>]))
====
