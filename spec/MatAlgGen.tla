---- MODULE MatAlgGen ----
(* Histories of element updates on a small matrix, inside and outside of it and of its band. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Len0
VARIABLES shape, hist
Kinds == {"set", "add_to", "scale_el", "get"}
GInit == shape \in [nr : 1..3, nc : 1..3, half : {-1, 0, 1, 2}] /\ hist = <<>>
GNext == /\ Len(hist) < Len0 /\ UNCHANGED shape
         /\ \E k \in Kinds, r \in 0..3, c \in 0..3, v \in {-2, 0, 3} : hist' = Append(hist, <<k, r, c, v>>)
GSpec == GInit /\ [][GNext]_<<shape, hist>>
Emit == Len(hist) = Len0 => PrintT("SCN:" \o ToJson(<<shape, hist>>))
====
