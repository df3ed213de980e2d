------------------------------ MODULE EpwTrace ------------------------------
(* Recorded readings of EPW files whose contents are known.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, src, rows, lines   \* src: event describing the file; rows/lines: how many were seen so far
tvars == <<i, src, rows, lines>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Ok == E.res = "ok"
S == Trace[src]
Init == i = 0 /\ src = 0 /\ rows = 0 /\ lines = 0
Near(a, b) == FClose(a, b, "1e-9", "1e-9")
NearAll(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k])
Rad(x) == FDiv(FMul(x, FPi), 180)
MinWind(x) == FMin(x, 360)         \* 999 is the missing value

File == Event("file") /\ E.new /\ src' = i + 1 /\ rows' = 0 /\ lines' = 0
Opt(a, b) == IF a = "none" \/ b = "none" THEN a = b ELSE Near(a, b)
Parsed ==
    /\ Event("parsed") /\ Ok /\ UNCHANGED <<src, rows, lines>>
    /\ E.text = S.text
    /\ Near(E.lat, Rad(S.lat)) /\ Near(E.lon, Rad(S.lon)) /\ E.tz = S.tz /\ Near(E.elev, S.elev)
    /\ E.nrows = Len(S.rows)
    /\ Len(E.ground) = Len(S.ground)
    /\ \A k \in 1..Len(E.ground) :
         /\ Near(E.ground[k].depth, S.ground[k].depth)
         /\ \A j \in 1..3 : Opt(E.ground[k].soil[j], S.ground[k].soil[j])
         /\ NearAll(E.ground[k].t, S.ground[k].t)
\* every row of the file, in order; each element in its place
Row == /\ Event("row") /\ Ok /\ E.k = rows + 1 /\ rows' = rows + 1 /\ UNCHANGED <<src, lines>>
       /\ LET s == S.rows[E.k]
          IN /\ E.year = s.year /\ E.m = s.m /\ E.d = s.d /\ FEq(E.hour, s.hour)
             /\ \A j \in 1..29 : Near(E.n[j], IF j = 15 THEN MinWind(s.n[j]) ELSE s.n[j])
Convert == Event("weather") /\ Ok /\ E.n = Len(S.rows) /\ rows = Len(S.rows) /\ E.same_location /\ UNCHANGED <<src, rows, lines>>
\* the line used by simulations: SI units, radians, fractions
Line == /\ Event("line") /\ Ok /\ E.k = lines + 1 /\ lines' = lines + 1 /\ UNCHANGED <<src, rows>>
        /\ LET s == S.rows[E.k]
               o == E.out
           IN /\ o.m = s.m /\ o.d = s.d /\ FClose(o.h, s.hour, 0, "1e-4") /\ FLt(o.h, 24)
              /\ o.ir # "none" /\ Near(o.ir, s.n[7])
              /\ NearAll(o.v, << s.n[1], s.n[2], s.n[8], s.n[9], s.n[10], s.n[16], Rad(MinWind(s.n[15])),
                                 FDiv(s.n[18], 10), FDiv(s.n[3], 100), s.n[4] >>)
EndFile == Event("end") /\ lines = Len(S.rows) /\ UNCHANGED <<src, rows, lines>>
Missing == Event("missing") /\ E.res = "refused" /\ UNCHANGED <<src, rows, lines>>
Done == i = Len(Trace) /\ UNCHANGED tvars
Next == File \/ Parsed \/ Row \/ Convert \/ Line \/ EndFile \/ Missing \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
