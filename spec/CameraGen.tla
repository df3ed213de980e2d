---- MODULE CameraGen ----
(* Cameras, what is asked of them, and images rendered through them (C29) *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Many
VARIABLES n, sc
R(S) == RandomElement(S)
Size(h) == R({<<1, 1>>, <<2, 2>>, <<7, 7>>, <<16, 9>>, <<9, 16>>, <<1, 5>>, <<6, 1>>, <<31, 4>>, <<3, 20>>, <<64, 48>>, <<128, 2>>, <<129, 1>>, <<13, 21>>})
Ask(h) == R({"own", "own", "inside", "inside", "inside", "edge", "out", "out", "behind", "across", "mirror", "long"})
Sc(h) == [dir |-> R({"axis", "any", "any", "steep", "long"}), up |-> R({"z", "z", "any", "tilted", "long"}), fov |-> R({5, 20, 45, 60, 60, 90, 120, 150}), size |-> Size(h), at |-> R({"origin", "any", "far"}),
          ask |-> <<>> \o [j \in 1..R(4..20) |-> Ask(j)], render |-> R({0, 1}), samples |-> R({1, 2, 5}), depth |-> R({0, 1, 4}), thing |-> R({"none", "none", "light", "light", "mirror", "matt"})]
Init == n = 0 /\ sc = [dir |-> "axis"]
Next == n < Many /\ n' = n + 1 /\ sc' = Sc(n)
Spec == Init /\ [][Next]_<<n, sc>>
Emit == n > 0 => PrintT("SCN:" \o ToJson(sc))
====
