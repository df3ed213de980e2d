---- MODULE MatrixFilesGen ----
(* Matrices saved, read, and files of them damaged or written by others (C28) *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Many
VARIABLES n, sc
R(S) == RandomElement(S)
Sc(h) == [comp |-> R({1, 3}), rows |-> R({1, 1, 2, 3, 5, 9}), cols |-> R({1, 1, 2, 3, 4, 7, 12}), fill |-> R({"any", "any", "small", "whole", "tiny", "signed", "zero"}), conv |-> R({0, 1}),
          damage |-> <<>> \o [j \in 1..R(1..5) |-> R({"rowless", "rowless", "rowmore", "tokenless", "tokenmore", "bad", "norows", "nocols", "badrows", "badcols", "manyrows", "fewrows", "cols", "comp", "nocomp", "asother", "extra", "space", "order", "empty"})]]
Init == n = 0 /\ sc = [comp |-> 0]
Next == n < Many /\ n' = n + 1 /\ sc' = Sc(n)
Spec == Init /\ [][Next]_<<n, sc>>
Emit == n > 0 => PrintT("SCN:" \o ToJson(sc))
====
