------------------------------ MODULE Assembly ------------------------------
(* Putting a building model together (model::Model).  Objects refer to      *)
(* each other by name; the model refuses what refers to something missing,  *)
(* a refused addition changes nothing, and every device with an operational *)
(* state (window, HVAC, luminaire) owns exactly one element of the state.   *)
EXTENDS Integers, Sequences, FiniteSets, Flt
VARIABLE m     \* the model
Empty == [spaces |-> <<>>, constructions |-> <<>>, substances |-> <<>>, materials |-> <<>>, buildings |-> <<>>,
          surfaces |-> <<>>, fenestrations |-> <<>>, hvacs |-> <<>>, luminaires |-> <<>>, objects |-> <<>>,
          state |-> <<>>, taken |-> FALSE]

Names(s) == {s[k].n : k \in 1..Len(s)}
\* the first object with that name (0: there is none)
Find(s, name) == IF \E k \in 1..Len(s) : s[k].n = name
                 THEN CHOOSE k \in 1..Len(s) : s[k].n = name /\ \A j \in 1..(k - 1) : s[j].n # name
                 ELSE 0
\* boundaries are [t |-> "Space", s |-> name] or [t |-> other kind, s |-> ""]
BoundaryOk(mm, b) == b.t = "Space" => Find(mm.spaces, b.s) # 0

Simple == {"spaces", "constructions", "substances", "materials", "buildings"}
AddSimple(mm, kind, o) == [mm EXCEPT ![kind] = Append(@, o)]

SurfaceOk(mm, o) == /\ Find(mm.constructions, o.construction) # 0
                    /\ BoundaryOk(mm, o.front) /\ BoundaryOk(mm, o.back)
AddSurface(mm, o) == [mm EXCEPT !.surfaces = Append(@, o)]

\* o.slot: where the window is on its parent; slot 0 does not fit within it
FenOk(mm, o) ==
    /\ ~mm.taken
    /\ o.cat = "Opening" \/ Find(mm.constructions, o.construction) # 0
    /\ o.parent # "" => (Find(mm.surfaces, o.parent) # 0 /\ o.slot > 0)
AddFen(mm, o) ==
    LET k == Find(mm.surfaces, o.parent)
        p == mm.surfaces[k]
        inherits == o.parent # ""
        same == inherits /\ p.up = o.up
        new == [o EXCEPT !.front = IF inherits THEN (IF same THEN p.front ELSE p.back) ELSE o.front,
                         !.back = IF inherits THEN (IF same THEN p.back ELSE p.front) ELSE o.back,
                         !.idx = Len(mm.state)]
        mm1 == IF inherits THEN [mm EXCEPT !.surfaces[k].holes = @ \cup {o.slot}] ELSE mm
    IN [mm1 EXCEPT !.fenestrations = Append(@, new),
                   !.state = Append(@, <<"FenestrationOpenFraction", Len(mm.fenestrations)>>)]

\* o.fresh: not already part of a model (a clone shares its place in the state)
DeviceOk(mm, o) == ~mm.taken /\ o.fresh
AddDevice(mm, kind, elem, o) ==
    [mm EXCEPT ![kind] = Append(@, [o EXCEPT !.idx = Len(mm.state)]),
               !.state = Append(@, <<elem, Len(mm[kind])>>)]
ObjectOk(mm, o) == o.space # "" => Find(mm.spaces, o.space) # 0
AddObject(mm, o) == [mm EXCEPT !.objects = Append(@, o)]

Refused(mm, kind, o) ==
    CASE kind \in Simple -> FALSE
      [] kind = "surfaces" -> ~SurfaceOk(mm, o)
      [] kind = "fenestrations" -> ~FenOk(mm, o)
      [] kind \in {"hvacs", "luminaires"} -> ~DeviceOk(mm, o)
      [] kind = "objects" -> ~ObjectOk(mm, o)
Added(mm, kind, o) ==
    CASE kind \in Simple -> AddSimple(mm, kind, o)
      [] kind = "surfaces" -> AddSurface(mm, o)
      [] kind = "fenestrations" -> AddFen(mm, o)
      [] kind = "hvacs" -> AddDevice(mm, kind, "HeatingCoolingPowerConsumption", o)
      [] kind = "luminaires" -> AddDevice(mm, kind, "LuminairePowerConsumption", o)
      [] kind = "objects" -> AddObject(mm, o)
Add(kind, o) == m' = IF Refused(m, kind, o) THEN m ELSE Added(m, kind, o)
TakeState == m' = [m EXCEPT !.taken = TRUE]

-----------------------------------------------------------------------------
(* What users rely on *)
RefIntegrity ==
    /\ \A k \in 1..Len(m.surfaces) : LET s == m.surfaces[k] IN
         Find(m.constructions, s.construction) # 0 /\ BoundaryOk(m, s.front) /\ BoundaryOk(m, s.back)
    /\ \A k \in 1..Len(m.fenestrations) : LET f == m.fenestrations[k] IN
         /\ f.cat = "Opening" \/ Find(m.constructions, f.construction) # 0
         /\ f.parent # "" => /\ Find(m.surfaces, f.parent) # 0
                             /\ LET p == m.surfaces[Find(m.surfaces, f.parent)] IN
                                  /\ f.slot \in p.holes
                                  /\ {f.front, f.back} = {p.front, p.back}
    /\ \A k \in 1..Len(m.objects) : m.objects[k].space # "" => Find(m.spaces, m.objects[k].space) # 0
\* exactly one state element per device, and the device knows where it is
Owner(e) == CASE e[1] = "FenestrationOpenFraction" -> m.fenestrations[e[2] + 1]
              [] e[1] = "HeatingCoolingPowerConsumption" -> m.hvacs[e[2] + 1]
              [] OTHER -> m.luminaires[e[2] + 1]
StateBijection ==
    /\ Len(m.state) = Len(m.fenestrations) + Len(m.hvacs) + Len(m.luminaires)
    /\ \A a, b \in 1..Len(m.state) : m.state[a] = m.state[b] => a = b
    /\ \A k \in 1..Len(m.state) : Owner(m.state[k]).idx = k - 1

(* Derived quantities *)
Floors == {"GroundFloor", "InteriorFloor", "ExteriorFloor"}
AreaOf(s) == s.area - Cardinality(s.holes)                 \* windows have unit area
FloorSpace(s) == LET b == IF s.up THEN s.front ELSE s.back
                 IN IF s.cat \in Floors /\ b.t = "Space" THEN b.s ELSE ""
RECURSIVE FloorArea(_, _, _)
FloorArea(mm, sp, k) == IF k = 0 THEN 0
    ELSE FloorArea(mm, sp, k - 1)
         + (IF FloorSpace(mm.surfaces[k]) # "" /\ (sp = "*" \/ FloorSpace(mm.surfaces[k]) = sp)
            THEN AreaOf(mm.surfaces[k]) ELSE 0)
SizesConsistent ==
    LET f[S \in SUBSET Names(m.spaces)] ==
          IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[S \ {x}] + FloorArea(m, x, Len(m.surfaces))
    IN f[Names(m.spaces)] = FloorArea(m, "*", Len(m.surfaces))
==============================================================================
