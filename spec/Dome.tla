-------------------------------- MODULE Dome --------------------------------
(* Reinhart's division of the sky: Tregenza's seven rows, each divided in m  *)
(* rows and each of its patches in m columns, plus a cap.  Patch 0 is the    *)
(* ground, the last one the cap; rows from the horizon up; in a row, from    *)
(* the north (y) through the east (x); the first patch is centred on north.  *)
EXTENDS Integers, Sequences, TLC, Flt
Tregenza == <<30, 30, 24, 24, 18, 12, 6>>
Rows(m) == 7 * m
InRow(m, r) == m * Tregenza[1 + (r \div m)]                      \* r = 0 .. Rows(m) - 1
Sum7(k) == CASE k = 0 -> 0 [] k = 1 -> 30 [] k = 2 -> 60 [] k = 3 -> 84 [] k = 4 -> 108 [] k = 5 -> 126 [] k = 6 -> 138 [] k = 7 -> 144
Before(m, r) == m * m * Sum7(r \div m) + (IF r = Rows(m) THEN 0 ELSE (r % m) * InRow(m, r))
NBins(m) == 144 * m * m + 2
Ground == 0
Cap(m) == NBins(m) - 1
\* the cap has half of the height of a row on each side of the zenith
Height(m) == FDiv(FDiv(FPi, 2), FAdd(Rows(m), "0.5"))
\* row and column of a patch; bins start after the ground
RowOf(m, b) == CHOOSE r \in 0..(Rows(m) - 1) : Before(m, r) < b /\ b <= Before(m, r + 1)
ColOf(m, b) == b - Before(m, RowOf(m, b)) - 1
Bin(m, r, c) == Before(m, r) + c + 1
Width(m, r) == FDiv(FMul(2, FPi), InRow(m, r))
Direction(alt, azi) == [x |-> FMul(FCos(alt), FSin(azi)), y |-> FMul(FCos(alt), FCos(azi)), z |-> FSin(alt)]
CellCentre(m, r, c) == Direction(FMul(FAdd(r, "0.5"), Height(m)), FMul(c, Width(m, r)))
Centre(m, b) == IF b = Ground THEN [x |-> F(0), y |-> F(0), z |-> F("-1")]
                ELSE IF b = Cap(m) THEN [x |-> F(0), y |-> F(0), z |-> F(1)]
                ELSE CellCentre(m, RowOf(m, b), ColOf(m, b))
CellArea(m, r) == FMul(Width(m, r), FSub(FSin(FMul(r + 1, Height(m))), FSin(FMul(r, Height(m)))))
Area(m, b) == IF b = Ground THEN FMul(2, FPi)
              ELSE IF b = Cap(m) THEN FMul(FMul(2, FPi), FSub(1, FCos(FDiv(Height(m), 2))))
              ELSE CellArea(m, RowOf(m, b))
\* the patch in a direction, given as altitude and azimuth
Azimuth(v) == LET a == FAtan2(v.x, v.y) IN IF FLt(a, 0) THEN FAdd(a, FMul(2, FPi)) ELSE a
Altitude(v) == FAsin(FMin(1, FMax("-1", v.z)))
ToInt(x) == FFloor(x)
BinAt(m, alt, azi) ==
    IF FLt(alt, 0) THEN Ground
    ELSE LET r == ToInt(FDiv(alt, Height(m)))
         IN IF r >= Rows(m) THEN Cap(m)
            ELSE Bin(m, r, ToInt(FAdd(FDiv(azi, Width(m, r)), "0.5")) % InRow(m, r))
BinOf(m, v) == BinAt(m, Altitude(v), Azimuth(v))
-----------------------------------------------------------------------------
\* a walk over the patches, row by row, and around each row
CONSTANTS Divisions
VARIABLES m, row, col, covered
dvars == <<m, row, col, covered>>
Init == m \in Divisions /\ row = 0 /\ col = 0 /\ covered = F(0)
Turn == /\ row < Rows(m) /\ col + 1 < InRow(m, row)
        /\ col' = col + 1 /\ covered' = FAdd(covered, CellArea(m, row)) /\ UNCHANGED <<m, row>>
Climb == /\ row < Rows(m) /\ col + 1 = InRow(m, row)
         /\ row' = row + 1 /\ col' = 0 /\ covered' = FAdd(covered, CellArea(m, row)) /\ UNCHANGED m
Next == Turn \/ Climb
Spec == Init /\ [][Next]_dvars
Here == IF row = Rows(m) THEN Cap(m) ELSE Bin(m, row, col)
\* the walk meets the patches in order, without holes
Numbered == RowOf(m, IF row = Rows(m) THEN Cap(m) - 1 ELSE Here) = (IF row = Rows(m) THEN row - 1 ELSE row) /\ (row < Rows(m) => ColOf(m, Here) = col)
InOrder == [][m' = m /\ LET h == IF row' = Rows(m) THEN Cap(m) ELSE Bin(m, row', col') IN h = Here + 1]_dvars
\* the centre of a patch is in the patch, and so is everything less than half a patch away
Within == LET v == TLCEval(Centre(m, Here)) IN BinOf(m, v) = Here
Wide == row < Rows(m) =>
          \A da \in {"-0.49", "0", "0.49"}, dz \in {"-0.49", "0.49"} :
             LET az == FMul(FAdd(col, dz), Width(m, row)) IN
             BinAt(m, FMul(FAdd(row, FAdd(da, "0.5")), Height(m)), IF FLt(az, 0) THEN FAdd(az, FMul(2, FPi)) ELSE az) = Here
\* the patches cover the hemisphere once
Covers == row = Rows(m) => FClose(FAdd(covered, Area(m, Cap(m))), FMul(2, FPi), "1e-9", 0) /\ Here + 1 = NBins(m)
=============================================================================
