---- MODULE RadiationGen ----
(* Walls and windows with all kinds of boundaries under changing skies, and what single walls see (C25) *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Many
VARIABLES n, sc
R(S) == RandomElement(S)
Front(h) == R({"outdoor", "outdoor", "space", "ambient", "ground"})
Back(h) == R({"outdoor", "space", "ambient", "ground", "adiabatic"})
Wall(h) == [f |-> Front(h), b |-> Back(h), node |-> R({TRUE, TRUE, FALSE}), cat |-> R({"Window", "Window", "Door", "Opening"}), first |-> R({"0", "any"})]
Step(h) == [sky |-> R({"night", "night", "edge", "dim", "overcast", "day", "day", "clear"}), hir |-> R({"given", "none"}), cover |-> R({"none", "some", "full"})]
MarchIt(h) == LET a == R(0..3) b == R(0..3) c == R({2, 4, 6}) IN
  [mode |-> "march", mf |-> R({1, 1, 1, 2, 3}), month |-> R(1..12), walls |-> [j \in 1..(a + 1) |-> Wall(j)], windows |-> [j \in 1..b |-> Wall(j)], steps |-> [j \in 1..c |-> Step(j)]]
Look(h) == [mode |-> "look", kind |-> R({"alone", "facing", "facing", "bright", "wide", "box"}), tilt |-> R({0, 17, 45, 60, 90, 90, 120, 151, 180}), as |-> R({"wall", "window"}), back |-> R({"outdoor", "ground", "space"}),
            mf |-> R({1, 1, 2}), skip |-> R(0..2), steps |-> <<Step(1), Step(2)>>]
Load(h) == [mode |-> "load", what |-> R({"garbage", "folder", "empty", "odd", "good"}), mf |-> R(1..4)]
Init == n = 0 /\ sc = [mode |-> "none"]
Next == /\ n < Many /\ n' = n + 1
        /\ sc' = IF n % 5 = 0 THEN Look(n) ELSE IF n % 10 = 1 THEN Load(n) ELSE MarchIt(n)
Spec == Init /\ [][Next]_<<n, sc>>
Emit == n > 0 => PrintT("SCN:" \o ToJson(sc))
====
