---- MODULE MCMatAlg ----
EXTENDS MatAlg
ASSUME \A s \in 0..3 : \A nr \in 1..7 : \A nc \in 1..7 : LayoutOK(s, nr, nc)
====
