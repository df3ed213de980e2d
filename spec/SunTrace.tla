------------------------------- MODULE SunTrace -------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Flt
S == INSTANCE Sun WITH Places <- {}, Days <- {}, StepMinutes <- 1, place <- 0, day <- 0, minute <- 0, sun <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0
Near(a, b) == FClose(a, b, "1e-9", "1e-10")
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
\* days since the beginning of the year
DayOfYear(d) == FAdd(Before[d.m] + d.d - 1, FDiv(d.h, 24))
\* the time that a question is about, in solar time
Asked == CASE E.t.kind = "solar" -> F(E.t.n)
           [] E.t.kind = "standard" -> S!ToSolar(E.p, E.t.n)
           [] E.t.kind = "date" -> S!ToSolar(E.p, DayOfYear(E.t.date))
           [] E.t.kind = "solardate" -> DayOfYear(E.t.date)
Slack == "1e-6"
SamePoint(q, v) == FClose(q[1], v.x, 0, "2e-5") /\ FClose(q[2], v.y, 0, "2e-5") /\ FClose(q[3], v.z, 0, "2e-5")
Overhead == [x |-> F(0), y |-> F(0), z |-> F(1)]
Seen(q, n) == LET v == TLCEval(S!Vector(E.p, n))
              IN IF Len(q) = 0 THEN FLt(v.z, Slack)
                 ELSE /\ FLt(FNeg(Slack), v.z)
                      /\ SamePoint(q, v) \/ (FLt("0.9998", v.z) /\ SamePoint(q, Overhead))
Position == Event("position") /\ E.res = "ok" /\ Seen(E.at, Asked)
Times == /\ Event("times") /\ LET n == F(E.n) IN
            /\ Near(E.declination, S!Declination(n)) /\ Near(E.equation, S!EquationOfTime(n)) /\ Near(E.extra, S!Extraterrestrial(n))
            /\ Near(E.lead, S!Lead(E.p, n)) /\ Near(E.solar, S!ToSolar(E.p, n)) /\ Near(E.standard, S!ToStandard(E.p, n))
            /\ FEq(E.same[1], n) /\ FEq(E.same[2], n)
            /\ Near(E.angle, S!HourAngle(n)) /\ Near(E.angle2, S!HourAngle(S!ToSolar(E.p, n)))
            /\ IF FLt(1, FAbs(S!CosHalfDay(E.p, n))) THEN TRUE
               ELSE FClose(E.rise, S!Sunrise(E.p, n), 0, "1e-6") /\ FClose(E.set, S!Sunset(E.p, n), 0, "1e-6")
Sky == /\ Event("clear")
       /\ Near(E.mass, S!AirMass(E.zenith))
       /\ Near(E.beam, S!Beam(FCos(E.zenith), E.elevation)) /\ Near(E.clear, S!ClearSky(F(E.n), FCos(E.zenith), E.elevation))
Done == i = Len(Trace) /\ UNCHANGED i
Next == Position \/ Times \/ Sky \/ Done
Spec == Init /\ [][Next]_i
===============================================================================
