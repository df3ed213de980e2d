----------------------------- MODULE PeriodTrace -----------------------------
(* Accepts recorded iterations of calendar::Period.  Same actions as Period *)
(* (Step, Stop, Fused), with real-valued time in days.                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Flt
Cal == INSTANCE Calendar WITH HourGrid <- {}, DayJumps <- {}, HourJumps <- {},
                              month <- 0, day <- 0, hour <- 0, clock <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, p, elapsed, cur, done
tvars == <<i, p, elapsed, cur, done>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Ok == E.res = "ok"
D0 == [m |-> 1, d |-> 1, h |-> "0"]
Init == i = 0 /\ p = [start |-> D0, end |-> D0, dt |-> "1", exact |-> TRUE, tol |-> "0"] /\ elapsed = F(0) /\ cur = D0 /\ done = TRUE

Whole(x) == FEq(x, FFloor(x))
Span == LET d == FSub(Cal!Doy(p.end), Cal!Doy(p.start))
        IN IF Cal!Earlier(p.end, p.start) THEN FAdd(d, 365) ELSE d
\* times on the hour grid are represented exactly, elsewhere allow rounding
OnGrid(e) == Whole(e.start.h) /\ Whole(e.end.h) /\ Whole(FDiv(e.dt, 3600))
Days(dt) == FDiv(dt, 86400)
LeTol(a, b) == FLe(a, FAdd(b, p.tol))

New == Event("new") /\ E.new /\ Ok
       /\ p' = [start |-> E.start, end |-> E.end, dt |-> E.dt, exact |-> OnGrid(E),
               tol |-> IF OnGrid(E) THEN "1e-9" ELSE "1e-7"]
       /\ elapsed' = F(0) /\ cur' = E.start /\ done' = FALSE
NewBad == Event("new_bad") /\ E.res = "panic" /\ UNCHANGED <<p, elapsed, cur, done>>
Step == /\ Event("next") /\ Ok /\ ~done
        /\ elapsed' = FAdd(elapsed, Days(p.dt))
        /\ LeTol(elapsed', Span)
        /\ Cal!ValidDate(E.v) /\ Cal!SameInstant(Cal!Doy(E.v), FAdd(Cal!Doy(cur), Days(p.dt)))
        /\ cur' = E.v /\ UNCHANGED <<p, done>>
Stop == /\ Event("stop") /\ Ok
        /\ \/ done
           \/ LET nxt == FAdd(elapsed, Days(p.dt))
              IN IF p.exact THEN ~LeTol(nxt, Span) ELSE FLe(FSub(Span, p.tol), nxt)
        /\ done' = TRUE /\ UNCHANGED <<p, elapsed, cur>>
End == Event("end") /\ done /\ UNCHANGED <<p, elapsed, cur, done>>
Contains == /\ Event("contains") /\ Ok
            /\ E.v = (IF Cal!Earlier(p.end, p.start)
                      THEN ~Cal!Earlier(p.end, E.x) \/ ~Cal!Earlier(E.x, p.start)
                      ELSE ~Cal!Earlier(E.x, p.start) /\ ~Cal!Earlier(p.end, E.x))
            /\ UNCHANGED <<p, elapsed, cur, done>>
Done == i = Len(Trace) /\ UNCHANGED tvars
Next == New \/ NewBad \/ Step \/ Stop \/ End \/ Contains \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
