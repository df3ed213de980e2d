---- MODULE SceneGen ----
(* Scenes put together part by part, for casting rays (C22): triangles of many shapes, meshed spheres, and models. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Many
VARIABLES n, sc
R(S) == RandomElement(S)
Kinds == {"room", "grid", "stack", "line", "cloud", "cloud", "sliver", "tiny", "small", "huge", "far"}
Alone == {"tiny", "small", "huge"}
Amount(h, k) == IF k = "grid" THEN R({8, 18, 32, 50}) ELSE IF k = "stack" THEN R({2, 5, 30}) ELSE IF k = "line" THEN R({1, 3, 20, 40}) ELSE R({1, 2, 3, 4, 5, 12, 26, 40})
Parts(h) == LET k == R(Kinds) IN IF k \in Alone THEN <<<<k, Amount(h, k)>>>> ELSE [j \in 1..R(1..3) |-> LET q == R(Kinds \ Alone) IN <<q, Amount(h, q)>>]
Casts(h) == [mode |-> "cast", parts |-> Parts(h), mixed |-> R(BOOLEAN), lights |-> R(BOOLEAN), again |-> R(BOOLEAN), rays |-> 24]
Sphere(h) == [mode |-> "sphere", size |-> R(0..3), rays |-> 40]
\* a layer: solar absorptances of the front and of the back, transmittance, visible reflectances of the front and of the back, in hundredths; -1: not given
Layer(h) == IF R(1..14) = 1 THEN <<-9>> ELSE
            LET a == R({-1, 5, 10, 30, 45, 60, 70, 95})
                b == R({-1, 5, 10, 30, 45, 60, 70, 95, a}) IN << a, b, R({-1, -1, -1, 4, 20, 50, 83}), R({-1, 5, 20, 45, 80}), R({-1, 10, 20, 60, 90}) >>
Cons(h) == [j \in 1..R(1..3) |-> Layer(j)]
Wall(h, cons) == [shape |-> R(0..5), tilt |-> R(0..20), cons |-> R(0..(Len(cons) - 1))]
Window(h, cons) == [shape |-> R({0, 2, 4}), tilt |-> R(0..20), cons |-> R(0..(Len(cons) - 1)), cat |-> R({"Window", "Door", "Opening"})]
Model(h) == LET c == [j \in 1..R(1..3) |-> Cons(j)] IN
  [mode |-> "model", cons |-> c, walls |-> [j \in 1..R(1..4) |-> Wall(j, c)], windows |-> [j \in 1..R(0..2) |-> Window(j, c)]]
Init == n = 0 /\ sc = [mode |-> "none"]
Next == /\ n < Many /\ n' = n + 1
        /\ \E m \in {n' % 8} : sc' = IF m = 0 /\ n' % 32 = 0 THEN Sphere(n) ELSE IF m \in {1, 2} THEN Model(n) ELSE Casts(n)
Spec == Init /\ [][Next]_<<n, sc>>
Emit == n > 0 => PrintT("SCN:" \o ToJson(sc))
====
