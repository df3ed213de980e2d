---- MODULE TriangulationGen ----
(* Polygons to triangulate: shapes with holes, random simple loops, and strips with many vertices *)
EXTENDS LoopsGen
\* a strip between two chains of random heights
Strip(n) == LET top == TLCEval([k \in 1..n |-> <<k, R(6..14)>>])  low == TLCEval([k \in 1..n |-> <<k, R(-4..4)>>]) IN Turned(n, low \o Rev(top))
StripStep == /\ mode = "strip" /\ hist = <<>>
             /\ \E n \in {R(3..60)} : \E p \in {Strip(n)} : Note([op |-> "poly", path |-> p])
             /\ UNCHANGED <<vars, mode>>
TGInit == /\ Init /\ hist = <<>> /\ mode \in {"loop", "loop", "poly", "strip"}
TGNext == GNext \/ StripStep
TGSpec == TGInit /\ [][TGNext]_<<vars, mode, hist>>
Plain == mode = "loop" /\ closed /\ Simple(verts)
EmitT == IF mode = "strip" THEN hist /= <<>> => PrintT("SCN:" \o ToJson([mode |-> "poly", ops |-> hist]))
         ELSE IF mode = "loop" THEN Plain => PrintT("SCN:" \o ToJson([mode |-> "poly", ops |-> << [op |-> "poly", path |-> verts] >>]))
         ELSE Len(hist) = PolySteps => PrintT("SCN:" \o ToJson([mode |-> mode, ops |-> hist]))
====
