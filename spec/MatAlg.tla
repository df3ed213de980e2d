------------------------------- MODULE MatAlg -------------------------------
(* The linear algebra behind the wall model (crate matrix): solving a banded *)
(* system by Gaussian elimination restricted to the band, over a prime field *)
(* so that it is exact; and the compact layout of n-diagonal matrices.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P,          \* the prime
          Size,       \* number of unknowns
          Half,       \* one-sided width of the band
          Entries, Rhs
VARIABLES a, b,       \* the system being reduced
          a0, b0,     \* the system as given
          c, phase    \* column being treated; "down", "up", "done" or "singular"
mvars == <<a, b, a0, b0, c, phase>>
Ix == 1..Size
Inv(x) == CHOOSE y \in 1..(P - 1) : (x * y) % P = 1
Abs(x) == IF x < 0 THEN -x ELSE x
InBand(i, j) == Abs(i - j) <= Half
BandIx == {ij \in Ix \X Ix : InBand(ij[1], ij[2])}
Band == {[ij \in Ix \X Ix |-> IF ij \in BandIx THEN q[ij] ELSE 0] : q \in [BandIx -> Entries]}
Init == /\ a \in Band /\ b \in [Ix -> Rhs] /\ a0 = a /\ b0 = b /\ c = 1 /\ phase = "down"
\* columns touched when a row is scaled or added: only those of the band to the right of the pivot
Touched(r) == r..(IF r + Half > Size THEN Size ELSE r + Half)
Elim(m, v, from, rows) ==
    [mm |-> [ij \in Ix \X Ix |-> IF ij[1] \in rows /\ ij[2] \in Touched(from)
                               THEN (m[ij] + (P - m[<<ij[1], from>>]) * m[<<from, ij[2]>>]) % P ELSE m[ij]],
     vv |-> [i \in Ix |-> IF i \in rows THEN (v[i] + (P - m[<<i, from>>]) * v[from]) % P ELSE v[i]]]
Down ==
    /\ phase = "down"
    /\ IF a[<<c, c>>] = 0
       THEN phase' = "singular" /\ UNCHANGED <<a, b, a0, b0, c>>
       ELSE LET k == Inv(a[<<c, c>>])
                m == [ij \in Ix \X Ix |-> IF ij[1] = c /\ ij[2] \in Touched(c) THEN (a[ij] * k) % P ELSE a[ij]]
                v == [b EXCEPT ![c] = (@ * k) % P]
                e == Elim(m, v, c, {r \in Ix : r > c /\ r <= c + Half})
            IN /\ a' = e.mm /\ b' = e.vv
               /\ IF c = Size THEN phase' = (IF Size = 1 THEN "done" ELSE "up") /\ c' = c ELSE phase' = phase /\ c' = c + 1
               /\ UNCHANGED <<a0, b0>>
Up ==
    /\ phase = "up"
    /\ LET e == Elim(a, b, c, {r \in Ix : r < c /\ r >= c - Half})
       IN a' = e.mm /\ b' = e.vv
    /\ IF c = 2 THEN phase' = "done" /\ c' = 1 ELSE phase' = phase /\ c' = c - 1
    /\ UNCHANGED <<a0, b0>>
Stay == phase \in {"done", "singular"} /\ UNCHANGED mvars
Next == Down \/ Up \/ Stay
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Down \/ Up)

RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE Sum(f, k - 1) + f[k]
RowDot(m, v, i) == Sum([k \in Ix |-> m[<<i, k>>] * v[k]], Size) % P
Solves == phase = "done" => \A i \in Ix : RowDot(a0, b, i) = b0[i]
\* elimination never leaves the band: zeroes outside stay zero
StaysBanded == \A i, j \in Ix : ~InBand(i, j) => a[<<i, j>>] = 0
Identity == phase = "done" => \A i, j \in Ix : i >= j => a[<<i, j>>] = (IF i = j THEN 1 ELSE 0)
Ends == <>(phase \in {"done", "singular"})

-----------------------------------------------------------------------------
(* Compact storage of an n x m matrix with half-width s: rows one after the  *)
(* other, only the elements within the band.                                 *)
ZeroesBefore(s, r) == IF r < s THEN 0 ELSE r - s              \* r from 0
InRow(s, r, ncols) ==
    IF r < s THEN (IF s + 1 + r < ncols THEN s + 1 + r ELSE ncols)
    ELSE IF (r - s) + 2 * s + 1 <= ncols THEN 2 * s + 1
    ELSE IF r - s < ncols THEN ncols - (r - s) ELSE 0
RECURSIVE Acc(_, _, _)
Acc(s, r, ncols) == IF r = 0 THEN 0 ELSE Acc(s, r - 1, ncols) + InRow(s, r - 1, ncols)
Stored(s, nr, nc) == {ij \in (0..(nr - 1)) \X (0..(nc - 1)) : Abs(ij[1] - ij[2]) <= s}
Index(s, ij, nc) == Acc(s, ij[1], nc) + ij[2] - ZeroesBefore(s, ij[1])
LayoutOK(s, nr, nc) ==
    /\ {Index(s, ij, nc) : ij \in Stored(s, nr, nc)} = 0..(Acc(s, nr, nc) - 1)
    /\ Cardinality(Stored(s, nr, nc)) = Acc(s, nr, nc)
=============================================================================
