----------------------------- MODULE Placement -----------------------------
(* Transformations put together (geometry/src/transform.rs), and what a ray hits of a solid placed with one (sphere3d.rs, cylinder3d.rs, disk3d.rs).
   A transformation keeps its matrix and the matrix of its inverse.  On the lattice: quarter turns, shifts and mirrors. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Moves,   \* elementary transformations: <<kind, axis, amount>>
          Depth, Points, Boxes
VARIABLES ops, mat, inv
vars == <<ops, mat, inv>>
Ax == 1..3
Id == [r \in 1..4 |-> [c \in 1..4 |-> IF r = c THEN 1 ELSE 0]]
Mul(a, b) == [r \in 1..4 |-> [c \in 1..4 |-> a[r][1] * b[1][c] + a[r][2] * b[2][c] + a[r][3] * b[3][c] + a[r][4] * b[4][c]]]
Nx(a) == (a % 3) + 1            \* the axis after this one
\* a quarter turn about an axis takes the next axis to the one after
Turn(a, s) == [r \in 1..4 |-> [c \in 1..4 |-> IF r = Nx(a) /\ c = Nx(Nx(a)) THEN -s ELSE IF r = Nx(Nx(a)) /\ c = Nx(a) THEN s
                                              ELSE IF r = c /\ (r = a \/ r = 4) THEN 1 ELSE 0]]
Shift(a, n) == [r \in 1..4 |-> [c \in 1..4 |-> IF r = c THEN 1 ELSE IF r = a /\ c = 4 THEN n ELSE 0]]
Mirror(a) == [r \in 1..4 |-> [c \in 1..4 |-> IF r = c THEN IF r = a THEN -1 ELSE 1 ELSE 0]]
Matrix(m) == IF m[1] = "turn" THEN Turn(m[2], m[3]) ELSE IF m[1] = "shift" THEN Shift(m[2], m[3]) ELSE Mirror(m[2])
Inverse(m) == IF m[1] = "turn" THEN Turn(m[2], -m[3]) ELSE IF m[1] = "shift" THEN Shift(m[2], -m[3]) ELSE Mirror(m[2])
Init == ops = <<>> /\ mat = Id /\ inv = Id
\* t *= m: m comes first, then what there was
Compose == /\ Len(ops) < Depth
           /\ \E m \in Moves : ops' = Append(ops, m) /\ mat' = Mul(mat, Matrix(m)) /\ inv' = Mul(Inverse(m), inv)
Next == Compose
Spec == Init /\ [][Next]_vars

(* ---- what holds ---- *)
At(m, p) == [r \in Ax |-> m[r][1] * p[1] + m[r][2] * p[2] + m[r][3] * p[3] + m[r][4]]
Of(m, v) == [r \in Ax |-> m[r][1] * v[1] + m[r][2] * v[2] + m[r][3] * v[3]]
\* normals go with the transpose of the inverse
Nrm(m, v) == [c \in Ax |-> m[1][c] * v[1] + m[2][c] * v[2] + m[3][c] * v[3]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* one after the other, the last first
RECURSIVE Through(_, _)
Through(o, p) == IF o = <<>> THEN p ELSE Through(SubSeq(o, 1, Len(o) - 1), At(Matrix(o[Len(o)]), p))
RECURSIVE Back(_, _)
Back(o, p) == IF o = <<>> THEN p ELSE Back(Tail(o), At(Inverse(o[1]), p))
There == \A p \in Points : At(mat, p) = Through(ops, p)
AndBack == Mul(mat, inv) = Id /\ \A p \in Points : At(inv, p) = Back(ops, p)
Normals == \A p, q \in Points : Dot(Nrm(inv, p), Of(mat, q)) = Dot(p, q)
Det == mat[1][1] * (mat[2][2] * mat[3][3] - mat[2][3] * mat[3][2]) - mat[1][2] * (mat[2][1] * mat[3][3] - mat[2][3] * mat[3][1])
       + mat[1][3] * (mat[2][1] * mat[3][2] - mat[2][2] * mat[3][1])
Hands == (Det < 0) <=> (Cardinality({k \in 1..Len(ops) : ops[k][1] = "mirror"}) % 2 = 1)
\* the box of the corners holds whatever the box held
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
BoxCorners(b) == {[k \in Ax |-> IF s[k] THEN b[1][k] ELSE b[2][k]] : s \in [Ax -> BOOLEAN]}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Moved(b) == LET cs == {At(mat, c) : c \in BoxCorners(b)} IN << [k \in Ax |-> MinOf({c[k] : c \in cs})], [k \in Ax |-> MaxOf({c[k] : c \in cs})] >>
Boxed == \A b \in Boxes : LET m == Moved(b) IN \A p \in Points :
   ((\A k \in Ax : b[1][k] <= p[k] /\ p[k] <= b[2][k]) <=> (\A k \in Ax : m[1][k] <= At(mat, p)[k] /\ At(mat, p)[k] <= m[2][k]))

(* ---- what a ray hits of a solid: of its two crossings, the first ahead that is on the part there is ---- *)
Crossings == {<<a, b, x, y>> \in (-2..2) \X (-2..2) \X BOOLEAN \X BOOLEAN : a <= b}
Pick(c) == IF c[2] <= 0 THEN 0 ELSE IF c[1] > 0 /\ c[3] THEN c[1] ELSE IF c[4] THEN c[2] ELSE 0
Ahead(c) == {t \in {IF c[3] THEN c[1] ELSE 0, IF c[4] THEN c[2] ELSE 0} : t > 0}
FirstAhead == \A c \in Crossings : IF Ahead(c) = {} THEN Pick(c) = 0 ELSE Pick(c) = MinOf(Ahead(c))
=============================================================================
