---------------------------- MODULE CalendarTrace ----------------------------
(* Accepts recorded calls on calendar::Date that are steps of Calendar.     *)
EXTENDS Calendar, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, date
tvars == <<i, date>>
None == [m |-> 1, d |-> 1, h |-> "0"]
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Ok == E.res = "ok"

TInit == i = 0 /\ date = None
TSet == Event("set") /\ Ok /\ ValidDate(E.to) /\ date' = E.to
TAddDays == Event("add_days") /\ Ok /\ ShiftedDays(date, E.to, E.n) /\ date' = E.to
TAddHours == Event("add_hours") /\ Ok /\ Shifted(date, E.to, FDiv(E.n, 24)) /\ date' = E.to
TAddMinutes == Event("add_minutes") /\ Ok /\ Shifted(date, E.to, FDiv(E.n, 1440)) /\ date' = E.to
TAddSeconds == Event("add_seconds") /\ Ok /\ Shifted(date, E.to, FDiv(E.n, 86400)) /\ date' = E.to
\* replay of a generated behaviour: the implementation must sit on the model's clock
TAt == Event("at") /\ Ok /\ date' = date
       /\ FClose(FMul(24, Doy(date)), E.clock, 0, "1e-6")
TDoy == Event("doy") /\ Ok /\ FClose(E.v, Doy(date), 0, "1e-9") /\ date' = date
TFromDoy == Event("from_doy") /\ Ok /\ ValidDate(E.to) /\ SameInstant(Doy(E.to), E.n) /\ date' = E.to
\* an impossible day of the year is refused
TFromDoyBad == Event("from_doy_bad") /\ E.res = "panic" /\ date' = date
TInterp ==
    /\ Event("interpolate") /\ Ok /\ date' = date
    /\ ValidDate(E.to)
    /\ LET a == Doy(date)
           b == Doy(E.other)
           span == IF FLt(b, a) THEN FAdd(FSub(b, a), 365) ELSE FSub(b, a)
       IN SameInstant(Doy(E.to), FAdd(a, FMul(E.x, span)))
TCompare ==
    /\ Event("compare") /\ Ok /\ date' = date
    /\ LET o == E.other
       IN /\ E.lt = Earlier(date, o) /\ E.gt = Earlier(o, date)
          /\ E.le = ~Earlier(o, date) /\ E.ge = ~Earlier(date, o)
          /\ E.eq = SameDate(date, o)
          /\ E.same_day = (date.m = o.m /\ date.d = o.d)
          /\ E.earlier = Earlier(date, o)
          /\ FClose(E.sub, FSub(Doy(date), Doy(o)), 0, "1e-9")
\* conversion to and from a chrono date and time, to the second
TToChrono ==
    /\ Event("to_chrono") /\ Ok /\ date' = date
    /\ E.y = E.year /\ E.mo = date.m /\ E.da = date.d
    /\ E.hh \in 0..23 /\ E.mm \in 0..59 /\ E.ss \in 0..59
    /\ FClose(E.hh * 3600 + E.mm * 60 + E.ss, FMul(date.h, 3600), 0, "1.01")
TFromChrono ==
    /\ Event("from_chrono") /\ Ok /\ ValidDate(E.to) /\ date' = E.to
    /\ E.to.m = E.mo /\ E.to.d = E.da
    /\ FClose(FMul(E.to.h, 3600), E.hh * 3600 + E.mm * 60 + E.ss, 0, "1e-4")
Done == i = Len(Trace) /\ UNCHANGED tvars
TNext == TSet \/ TAddDays \/ TAddHours \/ TAddMinutes \/ TAddSeconds \/ TAt \/ TDoy \/ TFromDoy
         \/ TFromDoyBad \/ TInterp \/ TCompare \/ TToChrono \/ TFromChrono \/ Done
TInitAll == TInit /\ month = 0 /\ day = 0 /\ hour = 0 /\ clock = 0
TSpec == TInitAll /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
==============================================================================
