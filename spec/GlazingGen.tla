---- MODULE GlazingGen ----
(* Constructions by what the sun meets; stacks of panes. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Kinds == {"clear", "block", "opaque"}
Panes == {<<80, 10, 10>>, <<60, 5, 30>>, <<20, 60, 10>>, <<0, 30, 90>>, <<100, 0, 0>>, <<40, 0, 60>>}
Init == x \in [kinds : UNION {[1..k -> Kinds] : k \in 1..4}, n : {1, 12}] \cup [panes : UNION {[1..k -> Panes] : k \in 1..3}]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
