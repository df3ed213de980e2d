---------------------------- MODULE RunLoopTrace ----------------------------
(* Recorded simulations: what the controller saw and did, and every line of *)
(* the report.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
RL == INSTANCE RunLoop WITH Houses <- {}, Weathers <- {}, Scripts <- {}, Ns <- {}, Fails <- {}, Initial <- <<>>,
          h <- 0, recs <- <<>>, n <- 0, script <- <<>>, fail <- 0, phase <- "", j <- 0, s <- <<>>, seen <- <<>>, rows <- 0, last <- 0
CA == INSTANCE Calendar WITH HourGrid <- {}, DayJumps <- {}, HourJumps <- {}, month <- 0, day <- 0, hour <- 0, clock <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, c, phase, j, s, recs, cols
tvars == <<i, c, phase, j, s, recs, cols>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
C == Trace[c]
Init == i = 0 /\ c = 0 /\ phase = "over" /\ j = 0 /\ s = <<>> /\ recs = <<>> /\ cols = <<>>
Near(a, b) == FClose(a, b, "1e-7", "1e-7")

Refused(e) == e.weather = "bad" \/ RL!Refused(e.n) \/ ~RL!HouseOk(e.house) \/ e.taken \/ e.ctl.kind = "bad"
Initially(e) == [k \in 1..Len(e.elems) |-> IF e.elems[k][1] = "SpaceDryBulbTemperature" THEN F(22) ELSE F(0)]
Records(q) == TLCEval([k \in 1..Len(q) |-> [x |-> CA!Doy(q[k]), t |-> q[k].t, ws |-> q[k].ws]])
Start == /\ Event("start") /\ E.new /\ phase = "over" /\ c' = i + 1 /\ j' = 0
         /\ phase' = IF Refused(E) THEN "refused" ELSE "header"
         /\ IF Refused(E) THEN s' = <<>> /\ recs' = <<>> /\ cols' = <<>>
            ELSE /\ s' = TLCEval(Initially(E)) /\ recs' = Records(E.recs)
                 /\ cols' = TLCEval(RL!Columns(E.outs, E.elems))
Name(e) == "{\"" \o e[1] \o "\":\"" \o e[2] \o "\"}"
\* without any column there is still the comma after the date
Cells(q) == IF cols = <<>> /\ q = <<"">> THEN <<>> ELSE q
Header == /\ Event("header") /\ phase = "header" /\ phase' = "step" /\ UNCHANGED <<c, j, s, recs, cols>>
          /\ E.cells[1] = "Date" /\ Cells(Tail(E.cells)) = [k \in 1..Len(cols) |-> Name(C.elems[cols[k]])]
\* the controller, when it is one that records
Control == /\ Event("control") /\ phase = "step" /\ C.ctl.kind = "record" /\ RL!Yields(recs, C.n, j + 1)
           /\ Len(E.before) = Len(s) /\ \A k \in 1..Len(s) : Near(E.before[k], s[k])
           /\ s' = E.after /\ j' = j + 1
           /\ phase' = IF C.ctl.fail = j THEN "failed" ELSE "report"
           /\ UNCHANGED <<c, recs, cols>>
Pad(k) == IF k < 10 THEN "0" \o ToString(k) ELSE ToString(k)
DateText(d) == Pad(d[1]) \o "/" \o Pad(d[2]) \o " - " \o ToString(d[3]) \o ":" \o Pad(d[4])
\* the text is the instant to the minute
DateOk(d, text, x) ==
    /\ text = DateText(d) /\ CA!ValidDay(d[1], d[2]) /\ d[3] \in 0..24 /\ d[4] \in 0..59
    /\ LET y == FAdd(CA!Ordinal(d[1], d[2]), FAdd(FDiv(d[3], 24), FDiv(d[4], 1440)))
           r == FMod(FSub(y, x), 365)
           half == FDiv("30.01", 86400)
       IN FLe(r, half) \/ FLe(FSub(365, half), r)
RowOk(s1, k) == /\ DateOk(E.date, E.text, RL!InstantOf(recs, C.n, k))
                /\ Len(Cells(E.cells)) = Len(cols)
                /\ \A q \in 1..Len(cols) : FClose(E.cells[q], s1[cols[q]], "1e-6", "0.00051")
Row == /\ Event("row") /\ UNCHANGED <<c, recs, cols>> /\ phase' = "step"
       /\ IF C.ctl.kind = "record"
          THEN /\ phase = "report" /\ j' = j
               /\ s' = TLCEval(RL!Physics(C.house, recs, C.n, j, s)) /\ RowOk(s', j)
          ELSE /\ phase = "step" /\ RL!Yields(recs, C.n, j + 1) /\ j' = j + 1
               /\ LET r == RL!Run(C.ctl.script, s)
                  IN r.ok /\ s' = TLCEval(RL!Physics(C.house, recs, C.n, j + 1, r.s)) /\ RowOk(s', j + 1)
End == /\ Event("end") /\ phase' = "over" /\ UNCHANGED <<c, j, s, recs, cols>>
       /\ E.rest = ""                                     \* no unfinished line
       /\ CASE phase = "refused" -> E.res = "err"
            [] phase = "failed" -> E.res = "err"
            [] phase = "step" -> \/ E.res = "ok" /\ ~RL!Surely(recs, C.n, j + 1)
                                 \/ E.res = "err" /\ RL!Yields(recs, C.n, j + 1) /\ C.ctl.kind = "rhai" /\ ~RL!Run(C.ctl.script, s).ok
            [] OTHER -> FALSE
Done == i = Len(Trace) /\ phase = "over" /\ UNCHANGED tvars
Next == Start \/ Header \/ Control \/ Row \/ End \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
