------------------------- MODULE TriangulationTrace -------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
T == INSTANCE Triangulation WITH Grid <- {}, MaxLen <- 0, Outers <- {}, Holes <- {}, MaxHoles <- 0, verts <- <<>>, closed <- FALSE, planar <- FALSE,
       clean <- TRUE, answer <- "", inner <- <<>>, rest <- <<>>, tris <- {}, whole <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, vs, hs, fit
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Keep == UNCHANGED <<vs, hs, fit>>
Init == i = 0 /\ vs = <<>> /\ hs = <<>> /\ fit = TRUE
Poly == Event("poly") /\ E.res = "ok" /\ vs' = E.path /\ hs' = <<>> /\ fit' = TRUE
Hole == /\ Event("hole")
        /\ IF ~fit THEN Keep
           ELSE IF T!Refused(vs, hs, E.path) THEN E.res = "err" /\ Keep
           ELSE IF ~T!Fits(vs, hs, E.path) THEN fit' = (E.res /= "ok") /\ UNCHANGED <<vs, hs>>
           ELSE E.res = "ok" /\ hs' = Append(hs, E.path) /\ UNCHANGED <<vs, fit>>
Sound(t) == FClose(t.area, FDiv(T!Area2(t.verts), 2), "1e-6", "1e-9") /\ t.side = T!Dir(t.verts)
Triangles ==
  /\ Event("triangles") /\ Keep
  /\ IF ~fit THEN TRUE ELSE IF T!Joinable(vs, hs)
     THEN /\ E.res = "ok"
          /\ \A k \in 1..Len(E.list) : Sound(E.list[k])
          /\ LET S == {E.list[k].verts : k \in 1..Len(E.list)} IN Cardinality(S) = Len(E.list) /\ T!Exact(S, vs, hs)
     ELSE TRUE
Done == i = Len(Trace) /\ UNCHANGED i /\ Keep
Next == Poly \/ Hole \/ Triangles \/ Done
Spec == Init /\ [][Next]_<<i, vs, hs, fit>>
=============================================================================
