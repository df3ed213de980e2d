---- MODULE MCHvacControl ----
EXTENDS HvacControl
N == "none"
Targets == {N, "s1", "s2"}
EH == [kind : {"ElectricHeater"}, target : Targets, hset : {N, "20"}, hpow : {N, "1000"}, cset : {N}, cpow : {N}]
IH == [kind : {"IdealHeaterCooler"}, target : {N, "s1"}, hset : {N, "18", "20"}, hpow : {N, "1000"}, cset : {N, "20", "24"}, cpow : {N, "500"}]
MCDevices == EH \cup IH
====
