---- MODULE ControlApiGen ----
(* Shapes of the statement in the middle of a script. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Kinds == {"space", "surface", "fenestration", "luminaire", "hvac"}
Faults(by) == {"no", "unassigned", "unknown"} \cup (IF by = "name" THEN {"missing"} ELSE {"negative", "beyond"})
Init == \E k \in Kinds, by \in {"name", "index"}, op \in {"=", "+=", "int", "junk", "let"}, from \in {"none", "ok", "bad"}, cond \in {"none", "true", "false", "bad"} :
          \E f \in Faults(by) : x = [kind |-> k, by |-> by, fault |-> f, op |-> op, from |-> from, cond |-> cond]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
