---- MODULE RunLoopGen ----
(* Kinds of weather file, of controller, of house and of requested outputs. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Good == [weather : {"epw", "sw", "newyear"}, n : {1, 7, 60, 100}, outs : {"none", "all", "some", "missing", "partly", "twice"},
         ctl : {"void", "record", "fail0", "fail2", "rhai", "rhaifail"}, spaces : {0, 1, 3}, taken : {FALSE}, bad : {"no"}]
Small(g) == g.n <= 7 \/ (g.outs \in {"none", "partly"} /\ g.weather = "sw" /\ g.ctl \in {"record", "rhai"})
Bad == {[weather |-> w, n |-> n, outs |-> "none", ctl |-> c, spaces |-> 2, taken |-> t, bad |-> b] :
          w \in {"none", "unsupported", "nofile", "corrupt", "nofileepw", "sw"}, n \in {0, 2}, c \in {"record", "rhai", "norhai", "syntax"},
          t \in BOOLEAN, b \in {"no", "volume", "building"}}
Init == (\E g \in Good : Small(g) /\ x = g) \/ (\E b \in Bad : x = b)
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
