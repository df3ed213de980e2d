---- MODULE AirFlowGen ----
(* Every way of describing a building, and every terrain. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Opt == {"none", "0.0002"}
Shelters == {"none", "NoObstructions", "IsolatedRural", "Urban", "LargeLotUrban", "SmallLotUrban"}
Bs == {[state |-> "none", stack |-> "none", wind |-> "none", storeys |-> -1, shelter |-> "none"],
       [state |-> "missing", stack |-> "none", wind |-> "none", storeys |-> -1, shelter |-> "none"]}
      \cup [state : {"ok"}, stack : Opt, wind : Opt, storeys : {-1, 0, 1, 2, 3, 5}, shelter : Shelters]
Terrains == {"none", "Country", "Suburbs", "City", "Ocean", "Urban"}
Types == {"none", "Constant", "Blast", "Doe2", "Design", "Leakage"}
Init == x \in {[b |-> b, terrain |-> t, type |-> "Leakage"] : b \in Bs, t \in {"none", "City"}}
             \cup {[b |-> b, terrain |-> t, type |-> ty] : b \in {CHOOSE y \in Bs : y.state = "none"}, t \in Terrains, ty \in Types \ {"Leakage"}}
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
