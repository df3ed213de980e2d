---- MODULE LightPathsGen ----
(* Scenes through which light is followed (C30) *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Many
VARIABLES n, sc
R(S) == RandomElement(S)
Furnace(h) == [mode |-> "furnace", things |-> <<>> \o [j \in 1..R(1..8) |-> R({"diffuse", "mirror", "glass", "plastic", "metal"})], depth |-> 5000, samples |-> R({1, 3, 10}), mf |-> R({1, 1, 2}), rays |-> R(2..8)]
Bounce(h) == [mode |-> "bounce", mat |-> R({"diffuse", "mirror", "glass", "glass", "plastic", "metal"}), colour |-> R({"grey", "any", "any", "dark", "clear", "one"}), index |-> R({"1.52", "1.1", "2.4"}), angle |-> R({0, 1, 30, 60, 80, 88}), side |-> R({0, 1}), depth |-> R({0, 1, 1, 7})]
Cross(h) == [mode |-> "cross", index |-> R({"1.52", "1.1", "1.33", "2.4"}), angle |-> R({0, 5, 30, 41, 42, 60, 80, 88}), side |-> R({0, 1}), colour |-> R({"grey", "any", "clear"}), from |-> R({0, 0, 1})]
Block(h) == [mode |-> "block", index |-> R({"1.1", "1.33", "1.52", "2.4"}), colour |-> R({"grey", "any", "clear", "clear", "one"}), angle |-> R({0, 5, 30, 60, 75}), depth |-> R({0, 1, 2, 3, 9, 9}), form |-> R({"any", "corner", "flat"})]
Lit(h) == [mode |-> "lit", mat |-> R({"diffuse", "diffuse", "plastic", "metal", "mirror"}), colour |-> R({"grey", "any", "dark", "clear", "one"}), light |-> R({"sun", "sun", "sphere", "triangle"}), two |-> R({0, 0, 1}), sky |-> R({0, 0, 1}), depth |-> R({0, 0, 1, 3}), shadow |-> R({1, 1, 5}),
           block |-> R({"none", "none", "between", "beyond", "beside", "near"}), angle |-> R({0, 20, 45, 70, 85, 100, 150}), side |-> R({0, 1}), half |-> R({"0.001", "0.004", "0.01"})]
Init == n = 0 /\ sc = [mode |-> "none"]
Next == /\ n < Many /\ n' = n + 1
        /\ sc' = IF n % 10 < 2 THEN Furnace(n) ELSE IF n % 10 < 4 THEN Bounce(n) ELSE IF n % 10 < 5 THEN Cross(n) ELSE IF n % 10 < 6 THEN Block(n) ELSE Lit(n)
Spec == Init /\ [][Next]_<<n, sc>>
Emit == n > 0 => PrintT("SCN:" \o ToJson(sc))
====
