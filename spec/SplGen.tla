------------------------------- MODULE SplGen -------------------------------
(* Documents made of entries of all classes in any order, with or without harm done to them (C26) *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Many
VARIABLES n, sc
R(S) == RandomElement(S)
Pick(h, q) == q[R(1..Len(q))]
Entry(h, safe) ==
  LET c == Pick(h, <<"Building", "Construction", "Construction", "Construction", "Fenestration", "Fenestration", "HVAC", "Luminaire", "Material", "Object", "Output", "SiteDetails", "SolarOptions",
                     "Space", "Space", "Space", "Substance", "Surface", "Surface", "Surface">>)
      b == IF safe \/ R(1..30) > 1 THEN "no" ELSE IF c \in {"Surface", "Fenestration"} THEN R({"field", "type", "vertices", "vertices"}) ELSE R({"field", "type"})
      gap == R(0..9) IN
  [class |-> c, name |-> R(0..2), ref |-> R(0..2), style |-> R(0..4), gap |-> gap, between |-> R({0, 0, 0, 1, 1, 1, 2, 5, 6, 8}), bad |-> b]
Simple(c, k) == [class |-> c, name |-> k, ref |-> R(0..2), style |-> R(0..4), gap |-> R(0..9), between |-> R({0, 1, 2}), bad |-> "no"]
Basis(h) == IF R(1..10) = 1 THEN <<>>
            ELSE <<Simple("Construction", 0), Simple("Space", 1), Simple("Construction", 2), Simple("Surface", 0), Simple("Construction", 1), Simple("Space", 2), Simple("Space", 0), Simple("Surface", 1), Simple("Surface", 2)>>
\* any order
RECURSIVE Mix(_)
Mix(q) == IF q = <<>> THEN <<>> ELSE LET k == R(1..Len(q)) IN CHOOSE s \in {<<q[j]>> \o Mix(SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))) : j \in {k}} : TRUE
Doc(h, harm, m) == LET k == R(0..6) IN [mode |-> m, entries |-> Mix(Basis(h) \o [j \in 1..k |-> Entry(j, harm # "no")]), harm |-> harm, last |-> R(0..9)]
Init == n = 0 /\ sc = [mode |-> "none"]
Next == /\ n < Many /\ n' = n + 1
        /\ sc' = CASE n % 5 = 0 -> Doc(n, "no", "json")
                   [] n % 5 = 1 -> Doc(n, R({"cut", "drop", "add", "word", "class", "open", "comment"}), "text")
                   [] OTHER -> Doc(n, "no", "text")
Spec == Init /\ [][Next]_<<n, sc>>
Emit == n > 0 => PrintT("SCN:" \o ToJson(sc))
====
