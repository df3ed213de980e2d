------------------------------ MODULE Lattice ------------------------------
(* Plane geometry on an integer lattice: every predicate here is exact.  A point is <<x, y>>, a path is a sequence of points. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
\* twice the signed area of the triangle o, a, b
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
OnSeg(p, a, b) == /\ Cross(a, b, p) = 0
                  /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
                  /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
\* the segments ab and cd, ends included, have a point in common
Meet(a, b, c, d) ==
  \/ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0 /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0
  \/ OnSeg(c, a, b) \/ OnSeg(d, a, b) \/ OnSeg(a, c, d) \/ OnSeg(b, c, d)
\* they cross: one point, interior to both
Crosses(a, b, c, d) == Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0 /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0
\* ab, ends included, runs into the interior of cd without being parallel to it
Hits(a, b, c, d) == /\ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0
                    /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) <= 0
At(vs, k) == vs[((k - 1) % Len(vs)) + 1]
Nxt(vs, k) == At(vs, k + 1)
Prv(vs, k) == At(vs, k + Len(vs) - 1)
Edges(vs) == 1..Len(vs)
Rev(vs) == [k \in 1..Len(vs) |-> vs[Len(vs) + 1 - k]]
Rot(vs, r) == [k \in 1..Len(vs) |-> At(vs, k + r)]
RECURSIVE SumTo(_, _)
SumTo(vs, k) == IF k = 0 THEN 0 ELSE SumTo(vs, k - 1) + (vs[k][1] * Nxt(vs, k)[2] - vs[k][2] * Nxt(vs, k)[1])
Signed2(vs) == SumTo(vs, Len(vs))      \* twice the signed area
Area2(vs) == Abs(Signed2(vs))
Simple(vs) ==
  /\ Len(vs) >= 3
  /\ \A j, k \in Edges(vs) : j < k =>
       LET a == vs[j]  b == Nxt(vs, j)  c == vs[k]  d == Nxt(vs, k) IN
       IF k = j + 1 \/ (j = 1 /\ k = Len(vs))
       THEN LET m == IF k = j + 1 THEN c ELSE a  p == IF k = j + 1 THEN a ELSE b  q == IF k = j + 1 THEN d ELSE c IN
            p /= m /\ q /= m /\ ~OnSeg(p, m, q) /\ ~OnSeg(q, m, p)
       ELSE ~Meet(a, b, c, d)
Corners(vs) == \A k \in Edges(vs) : Cross(Prv(vs, k), vs[k], Nxt(vs, k)) /= 0
OnPath(p, vs) == \E k \in Edges(vs) : OnSeg(p, vs[k], Nxt(vs, k))
\* the horizontal ray to the right of p crosses the edge
RayHits(p, a, b) == /\ (a[2] > p[2]) /= (b[2] > p[2])
                    /\ IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0
Where(p, vs) == IF OnPath(p, vs) THEN "on"
                ELSE IF Cardinality({k \in Edges(vs) : RayHits(p, vs[k], Nxt(vs, k))}) % 2 = 1 THEN "in" ELSE "out"
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Xs(vs) == {vs[k][1] : k \in 1..Len(vs)}
Ys(vs) == {vs[k][2] : k \in 1..Len(vs)}
=============================================================================
