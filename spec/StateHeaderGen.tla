---- MODULE StateHeaderGen ----
(* All operation sequences of a given length, as scenarios. *)
EXTENDS StateHeader, TLC, Json
CONSTANT Len0
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < Len0
         /\ \/ \E c \in Classes : Push(c, 0) /\ hist' = Append(hist, c)
            \/ Take /\ hist' = Append(hist, "T")
GSpec == GInit /\ [][GNext]_<<svars, hist>>
Emit == Len(hist) = Len0 => PrintT("SCN:" \o ToJson(hist))
====
