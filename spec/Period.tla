------------------------------- MODULE Period -------------------------------
(* The instants a simulation visits (calendar::Period).  A period starts at *)
(* `start`, ends at `end` and is walked in steps of `dt`, forward through   *)
(* the circular year, crossing new year at most once.  The specification    *)
(* keeps the time elapsed since the start; `cur` is the position in the     *)
(* year that the implementation keeps instead.                              *)
EXTENDS Integers, Sequences
CONSTANT Year              \* length of the (model) year, in ticks
VARIABLES start, end, dt, elapsed, cur, done
pvars == <<start, end, dt, elapsed, cur, done>>

Span == IF start > end THEN end - start + Year ELSE end - start

Init == /\ start \in 0..(Year - 1) /\ end \in 0..(Year - 1) /\ dt \in 1..(Year - 1)
        /\ elapsed = 0 /\ cur = start /\ done = FALSE

(* What a user expects *)
Yields == elapsed + dt <= Span

(* How Period::next decides, from positions in the year only *)
ConcreteYields ==
    LET new == (cur + dt) % Year
        before == cur <= end
        after == new <= end
        crossedEnd == before # after
        crossedNY == new < cur
    IN ~(IF crossedNY THEN ~(start > end) \/ before \/ ~after ELSE crossedEnd)

Step == /\ ~done /\ Yields
        /\ elapsed' = elapsed + dt /\ cur' = (cur + dt) % Year
        /\ UNCHANGED <<start, end, dt, done>>
Stop == /\ ~done /\ ~Yields /\ done' = TRUE
        /\ UNCHANGED <<start, end, dt, elapsed, cur>>
Fused == done /\ UNCHANGED pvars
Next == Step \/ Stop \/ Fused
Spec == Init /\ [][Next]_pvars /\ WF_pvars(Step \/ Stop)

(* Year-agnostic membership *)
Contains(x) == LET off == (x - start) % Year IN off <= Span
ConcreteContains(x) == IF start <= end THEN start <= x /\ x <= end ELSE x <= end \/ x >= start

Refines == ~done => (Yields <=> ConcreteYields)
Position == cur = (start + elapsed) % Year
InPeriod == Contains(cur) /\ elapsed <= Span
ContainsOK == \A x \in 0..(Year - 1) : Contains(x) <=> ConcreteContains(x)
Complete == done => elapsed <= Span /\ elapsed + dt > Span
Terminates == <>done
=============================================================================
