----------------------------- MODULE MatAlgTrace -----------------------------
(* Recorded operations on matrix::GenericMatrix, NDiagGenericMatrix and      *)
(* polynomial::Polynomial.  m is the matrix under modification, as rows.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, m, half        \* half: one-sided width of the band; -1: a full matrix
tvars == <<i, m, half>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0 /\ m = <<>> /\ half = -1
Rows == Len(m)
Cols == IF m = <<>> THEN 0 ELSE Len(m[1])
SameM(a, b) == /\ Len(a) = Len(b)
               /\ \A r \in 1..Len(a) : /\ Len(a[r]) = Len(b[r])
                                      /\ \A k \in 1..Len(a[r]) : FClose(a[r][k], b[r][k], "1e-9", "1e-12")
Inside(r, c) == r \in 0..(Rows - 1) /\ c \in 0..(Cols - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
OnDiag(r, c) == half < 0 \/ Abs(r - c) <= half
Map2(a, b, F2(_, _)) == [r \in 1..Len(a) |-> [k \in 1..Len(a[r]) |-> F2(a[r][k], b[r][k])]]
Map1(a, F1(_)) == [r \in 1..Len(a) |-> [k \in 1..Len(a[r]) |-> F1(a[r][k])]]
SameShape(a, b) == Len(a) = Len(b) /\ (a = <<>> \/ Len(a[1]) = Len(b[1]))
Col(a, k) == [r \in 1..Len(a) |-> a[r][k]]
Prod(a, b) == [r \in 1..Len(a) |-> [k \in 1..Len(b[1]) |-> FDot(a[r], Col(b, k))]]
Keep == UNCHANGED <<m, half>>
Refused == E.res \in {"err", "panic"}
Wellformed(a) == \A r \in 1..Len(a) : Len(a[r]) = Len(a[1])

\* --- creation
Fill(v, nr, nc) == [r \in 1..nr |-> [k \in 1..nc |-> v]]
New == /\ Event("new") /\ E.new /\ E.res = "ok" /\ half' = E.half /\ m' = E.m
       /\ SameM(E.m, CASE E.how = "fill" -> [r \in 1..E.nr |-> [k \in 1..E.nc |-> IF E.half < 0 \/ Abs(r - k) <= E.half THEN E.v ELSE "0"]]
                       [] E.how = "eye" -> [r \in 1..E.nr |-> [k \in 1..E.nr |-> IF r = k THEN "1" ELSE "0"]]
                       [] E.how = "diag" -> [r \in 1..E.nr |-> [k \in 1..E.nr |-> IF r = k THEN E.d[r] ELSE "0"]]
                       [] E.how = "data" -> [r \in 1..E.nr |-> [k \in 1..E.nc |-> E.d[(r - 1) * E.nc + k]]])
       /\ E.rows = E.nr /\ E.cols = E.nc
NewBad == Event("new_bad") /\ E.new /\ E.res = "panic" /\ m' = <<>> /\ half' = -1
\* --- one element
Get == /\ Event("get") /\ Keep
       /\ IF Inside(E.r, E.c) THEN E.res = "ok" /\ FClose(E.v, m[E.r + 1][E.c + 1], "1e-12", 0) ELSE E.res = "err"
Upd(f(_)) == IF Inside(E.r, E.c) /\ OnDiag(E.r, E.c)
             THEN E.res = "ok" /\ m' = [m EXCEPT ![E.r + 1][E.c + 1] = f(@)]
             ELSE E.res = "err" /\ m' = m
Set == Event("set") /\ Upd(LAMBDA x : E.v) /\ half' = half /\ SameM(E.m, m')
AddTo == Event("add_to") /\ Upd(LAMBDA x : FAdd(x, E.v)) /\ half' = half /\ SameM(E.m, m')
ScaleEl == Event("scale_el") /\ Upd(LAMBDA x : FMul(x, E.v)) /\ half' = half /\ SameM(E.m, m')
\* --- whole matrix, in place
InPlace(op, f(_, _)) ==
    /\ Event(op) /\ half' = half
    /\ IF SameShape(m, E.other) THEN E.res = "ok" /\ m' = Map2(m, E.other, f) ELSE Refused /\ m' = m
    /\ SameM(E.m, m')
AddAssign == InPlace("add_assign", FAdd)
SubAssign == InPlace("sub_assign", FSub)
CopyFrom == InPlace("copy_from", LAMBDA x, y : y)
MulS == Event("mul_assign") /\ E.res = "ok" /\ half' = half /\ m' = Map1(m, LAMBDA x : FMul(x, E.v)) /\ SameM(E.m, m')
DivS == Event("div_assign") /\ E.res = "ok" /\ half' = half /\ m' = Map1(m, LAMBDA x : FDiv(x, E.v)) /\ SameM(E.m, m')
ConcatRows == /\ Event("concat") /\ half' = half
              /\ IF Cols = (IF E.other = <<>> THEN 0 ELSE Len(E.other[1])) THEN E.res = "ok" /\ m' = m \o E.other ELSE E.res = "err" /\ m' = m
              /\ SameM(E.m, m')
\* --- whole matrix, into another one (which keeps its shape); the operand never changes
Outcome(ok, want) == /\ IF ok THEN E.res = "ok" /\ SameM(E.out, want) ELSE Refused
                     /\ SameM(E.m, m) /\ Keep
Sum == Event("add") /\ Outcome(SameShape(m, E.other), Map2(m, E.other, FAdd))
Diff == Event("sub") /\ Outcome(SameShape(m, E.other), Map2(m, E.other, FSub))
Scaled == Event("scale") /\ Outcome(SameShape(m, E.into), Map1(m, LAMBDA x : FMul(x, E.v)))
Product == Event("prod") /\ Outcome(Cols = Len(E.other) /\ Len(E.into) = Rows /\ Len(E.into[1]) = Len(E.other[1]), Prod(m, E.other))
\* multiplying a matrix that is banded, looking at its band only, is multiplying it
Banded(a, h) == [r \in 1..Len(a) |-> [k \in 1..Len(a[r]) |-> IF Abs(r - k) <= h THEN a[r][k] ELSE "0"]]
BandProduct == Event("band_prod") /\ Outcome(Cols = Len(E.other) /\ Len(E.into) = Rows /\ Len(E.into[1]) = Len(E.other[1]), Prod(Banded(m, E.half), E.other))
ColProduct == /\ Event("col_prod") /\ Keep
              /\ IF Len(E.x) = Cols /\ E.nout = Len(E.x)
                 THEN E.res = "ok" /\ \A r \in 1..Rows : FClose(E.out[r], FDot(m[r], E.x), "1e-9", "1e-12")
                 ELSE E.res = "err"
Compare == Event("compare") /\ Keep /\ E.res = "ok" /\ E.v = (SameShape(m, E.other) /\ \A r \in 1..Rows : \A k \in 1..Cols : FEq(m[r][k], E.other[r][k]))
\* --- solving: the residual of the solution vanishes
Residual(a, x, b, tol) == \A r \in 1..Len(a) : \A k \in 1..Len(b[1]) : FClose(FDot(a[r], Col(x, k)), b[r][k], tol, tol)
Solve == /\ Event("solve") /\ Keep /\ SameM(E.m, m)
         /\ IF E.regular THEN E.res = "ok" /\ Residual(m, E.x, E.b, "1e-7") ELSE E.res = "err"
Seidel == /\ Event("seidel") /\ Keep /\ SameM(E.m, m)
          /\ IF E.square THEN E.res = "ok" /\ Residual(m, E.x, E.b, "1e-6") ELSE E.res = "err"
\* too few iterations are reported as such
SeidelShort == Event("seidel_short") /\ Keep /\ E.res = "err"
\* --- polynomials
RECURSIVE Horner(_, _, _)
Horner(cs, x, k) == IF k > Len(cs) THEN F(0) ELSE FAdd(cs[k], FMul(x, Horner(cs, x, k + 1)))
Poly == /\ Event("poly") /\ Keep /\ E.n = (IF Len(E.cs) > 12 THEN 12 ELSE Len(E.cs)) /\ E.empty = (E.cs = <<>>)
        /\ E.res = (IF Len(E.cs) > 12 THEN "panic" ELSE "ok")
        /\ E.res = "ok" => \A k \in 1..Len(E.xs) : FClose(E.ys[k], Horner(E.cs, E.xs[k], 1), "1e-9", E.scale[k])
Done == i = Len(Trace) /\ UNCHANGED tvars
Next == New \/ NewBad \/ Get \/ Set \/ AddTo \/ ScaleEl \/ AddAssign \/ SubAssign \/ CopyFrom \/ MulS \/ DivS \/ ConcatRows
        \/ Sum \/ Diff \/ Scaled \/ Product \/ BandProduct \/ ColProduct \/ Compare \/ Solve \/ Seidel \/ SeidelShort \/ Poly \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
