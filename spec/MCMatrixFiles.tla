---- MODULE MCMatrixFiles ----
EXTENDS MatrixFiles
M == {[rows |-> r, cols |-> c, comp |-> k, vals |-> [j \in 1..r * c * k |-> ToString(j * j % 7)]] : r \in 1..3, c \in 1..3, k \in {1, 3}}
====
