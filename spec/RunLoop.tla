------------------------------ MODULE RunLoop -------------------------------
(* A whole simulation (simple::run_simulation): weather file, controller,   *)
(* physics and report.  For every instant of the period covered by the      *)
(* weather file the controller acts on the state left by the previous step, *)
(* then the physics marches (air flow, then heat), then one row is written. *)
(*                                                                          *)
(* A house h: [spaces: <<[vol, inf, b, t, v, vt]>>, devs: <<[target, idx]>>, *)
(* terrain]; t, v, vt, idx: positions in the state.  Weather records:       *)
(* [x (days since Jan 1st 0:00), t (temperature), ws (wind speed)].         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt
AF == INSTANCE AirFlow WITH Spaces <- {}, Temps <- {}, Winds <- {}, Configs <- {}, Buildings <- {},
                            cfg <- 0, temp <- 0, vol <- 0, tinf <- 0, wea <- 0
ZH == INSTANCE ZoneHeat WITH Vols <- {}, Gains <- {}, Winds <- {}, Outs <- {}, Hs <- {}, Starts <- {}, Dt <- 0,
                             vol <- 0, gain <- 0, inf <- 0, wall <- 0, T <- 0, n <- 0

\* --- the instants
MaxN == 60
Refused(n) == n = 0
StepsPerHour(n) == IF n > MaxN THEN MaxN ELSE n
Dt(n) == FDiv(3600, StepsPerHour(n))
Start(recs) == recs[1].x
Span(recs) == FMod(FSub(FSub(recs[Len(recs)].x, FDiv("0.1", 24)), Start(recs)), 365)     \* days
Elapsed(n, j) == FDiv(FMul(j, Dt(n)), 86400)
InstantOf(recs, n, j) == FMod(FAdd(Start(recs), Elapsed(n, j)), 365)       \* of row j
\* a last record in the first six minutes of its day: midnight or six minutes before the record, either will do
Slack(recs) == IF FLt(FMod(recs[Len(recs)].x, 1), FDiv("0.1", 24)) THEN FDiv("0.1", 24) ELSE F(0)
Yields(recs, n, j) == FLe(Elapsed(n, j), FAdd(FAdd(Span(recs), Slack(recs)), "1e-7"))
Surely(recs, n, j) == FLe(Elapsed(n, j), FSub(Span(recs), "1e-7"))         \* not a matter of rounding

\* --- the weather: interpolated between the neighbours in the circular year
Lookup(recs, x) ==
    LET back == TLCEval([k \in 1..Len(recs) |-> FMod(FAdd(FSub(x, recs[k].x), "1e-12"), 365)])
        fwd == TLCEval([k \in 1..Len(recs) |-> FMod(FSub(FSub(recs[k].x, x), "1e-12"), 365)])
        p == CHOOSE k \in 1..Len(recs) : \A j \in 1..Len(recs) : FLe(back[k], back[j])
        q == CHOOSE k \in 1..Len(recs) : \A j \in 1..Len(recs) : FLe(fwd[k], fwd[j])
        r == FDiv(back[p], FAdd(back[p], fwd[q]))
        lin(a, b) == FAdd(a, FMul(r, FSub(b, a)))
    IN IF Len(recs) = 1 THEN [t |-> F(recs[1].t), ws |-> F(recs[1].ws)]
       ELSE [t |-> lin(recs[p].t, recs[q].t), ws |-> lin(recs[p].ws, recs[q].ws)]

\* --- the physics
Owner(h, f, k) == {z \in 1..Len(h.spaces) : h.spaces[z].inf.type # "none" /\ h.spaces[z][f] = k}
Air(h, s, w) == TLCEval([k \in 1..Len(s) |->
    LET a == Owner(h, "v", k) b == Owner(h, "vt", k)
    IN IF a # {} THEN LET z == h.spaces[CHOOSE z \in a : TRUE] IN AF!Volume(z.inf, z.b, h.terrain, s[z.t], w)
       ELSE IF b # {} THEN w.t ELSE s[k]])
RECURSIVE Gains(_, _, _, _)
Gains(h, s, z, k) == IF k > Len(h.devs) THEN <<>>
                     ELSE (IF h.devs[k].target = z THEN <<s[h.devs[k].idx]>> ELSE <<>>) \o Gains(h, s, z, k + 1)
Inflow(h, s, z) == <<ZH!AirFlow(s[h.spaces[z].v], s[h.spaces[z].vt])>>
SubStep(h, s, dt) == TLCEval([k \in 1..Len(s) |->
    LET own == {z \in 1..Len(h.spaces) : h.spaces[z].t = k}
    IN IF own = {} THEN s[k]
       ELSE LET z == CHOOSE z \in own : TRUE
            IN ZH!Step(h.spaces[z].vol, s[k], Gains(h, s, z, 1), Inflow(h, s, z), dt)])
Heat(h, s, dt) == SubStep(h, SubStep(h, s, FDiv(dt, 2)), FDiv(dt, 2))      \* two sub-steps
Physics(h, recs, n, j, s) == Heat(h, Air(h, s, Lookup(recs, InstantOf(recs, n, j))), Dt(n))
\* what may be simulated
SpaceOk(z) == z.vol # "none" /\ AF!Admitted(z.inf, z.b)
HouseOk(h) == \A z \in 1..Len(h.spaces) : SpaceOk(h.spaces[z])

\* --- control scripts: a sequence of [get, cmp, val, set, from, gain, off]
\* "if state[get] cmp val { state[set] = gain * state[from] + off }"
\* (get = 0: always; from = 0: off only; set = 0: the script fails)
Holds(r, x) == r.get = 0 \/ (IF r.cmp = "<" THEN FLt(x[r.get], r.val) ELSE FLt(r.val, x[r.get]))
Assign(r, x) == [x EXCEPT ![r.set] = IF r.from = 0 THEN F(r.off) ELSE FAdd(FMul(r.gain, x[r.from]), r.off)]
RECURSIVE Run(_, _)
Run(sc, x) == IF sc = <<>> THEN [ok |-> TRUE, s |-> x]
              ELSE IF ~Holds(Head(sc), x) THEN Run(Tail(sc), x)
              ELSE IF Head(sc).set = 0 THEN [ok |-> FALSE, s |-> x]
              ELSE Run(Tail(sc), Assign(Head(sc), x))

\* --- the report: the requested outputs that exist, in the requested order; everything if there is none
RECURSIVE Select(_, _)
Select(outs, elems) ==
    IF outs = <<>> THEN <<>>
    ELSE LET m == {k \in 1..Len(elems) : elems[k] = Head(outs)}
         IN (IF m = {} THEN <<>> ELSE <<CHOOSE k \in m : \A j \in m : k <= j>>) \o Select(Tail(outs), elems)
Columns(outs, elems) == LET s == Select(outs, elems) IN IF s = <<>> THEN [k \in 1..Len(elems) |-> k] ELSE s
-----------------------------------------------------------------------------
CONSTANTS Houses, Weathers, Scripts, Ns, Fails,   \* Fails: rows after which the controller fails (-1: never)
          Initial                                 \* the state at the start
VARIABLES h, recs, n, script, fail, phase, j, s, seen,
          rows, last                              \* the number of rows written, and the last one
rvars == <<h, recs, n, script, fail, phase, j, s, seen, rows, last>>
Init == /\ phase = "setup" /\ h = [spaces |-> <<>>, devs |-> <<>>, terrain |-> "none"] /\ recs = <<>> /\ n = 0 /\ script = <<>> /\ fail = 0
        /\ j = 0 /\ s = Initial /\ seen = <<>> /\ rows = 0 /\ last = [x |-> F(0), s |-> Initial]
Setup == /\ phase = "setup"
         /\ h' \in Houses /\ recs' \in Weathers /\ script' \in Scripts /\ n' \in Ns /\ fail' \in Fails
         /\ phase' = IF Refused(n') \/ ~HouseOk(h') THEN "refused" ELSE "step"
         /\ UNCHANGED <<j, s, seen, rows, last>>
Keep == UNCHANGED <<h, recs, n, script, fail>>
Control == /\ phase = "step" /\ Yields(recs, n, j + 1) /\ Keep
           /\ LET r == Run(script, s) IN
              IF fail = rows \/ ~r.ok THEN phase' = "failed" /\ UNCHANGED <<j, s, seen, rows, last>>
              ELSE /\ phase' = "physics" /\ seen' = s /\ s' = r.s /\ j' = j + 1 /\ UNCHANGED <<rows, last>>
March == /\ phase = "physics" /\ s' = Physics(h, recs, n, j, s) /\ phase' = "report" /\ Keep /\ UNCHANGED <<j, seen, rows, last>>
Report == /\ phase = "report" /\ rows' = rows + 1 /\ last' = [x |-> InstantOf(recs, n, j), s |-> s]
          /\ phase' = "step" /\ Keep /\ UNCHANGED <<j, s, seen>>
Finish == /\ phase = "step" /\ ~Yields(recs, n, j + 1) /\ phase' = "done" /\ Keep /\ UNCHANGED <<j, s, seen, rows, last>>
Next == Setup \/ Control \/ March \/ Report \/ Finish
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Next)

Over == phase \in {"done", "failed", "refused"}
Paced == j = rows + (IF phase \in {"physics", "report"} THEN 1 ELSE 0)
Complete == phase = "done" => ~Yields(recs, n, rows + 1) /\ (rows > 0 => Yields(recs, n, rows))
Failed == phase = "failed" => (rows = fail \/ ~Run(script, last.s).ok) /\ Yields(recs, n, rows + 1)
Nothing == phase = "refused" => rows = 0
\* the controller acts on what was last reported
Aware == phase = "physics" => seen = last.s
Dated == rows > 0 => FClose(last.x, InstantOf(recs, n, rows), 0, "1e-12")
\* one row after the other
Ordered == [][rows' > 0 /\ rows' # rows /\ rows > 0 => FClose(FMod(FSub(last'.x, last.x), 365), FDiv(Dt(n), 86400), 0, "1e-9")]_rvars
\* the instants are inside the period, which the rows cover
Inside == rows > 0 => FLe(FMod(FSub(FSub(last.x, Start(recs)), "-1e-9"), 365), FAdd(Span(recs), "1e-6"))
\* the physics moves only what belongs to it
Devices == [][phase = "physics" => \A k \in 1..Len(h.devs) : s'[h.devs[k].idx] = s[h.devs[k].idx]]_rvars
\* the air moves towards the outdoor temperature when nothing else happens
Passive == [][(phase = "physics" /\ \A k \in 1..Len(h.devs) : FEq(s[h.devs[k].idx], 0)) =>
              \A z \in 1..Len(h.spaces) : LET w == Lookup(recs, InstantOf(recs, n, j)) q == h.spaces[z] IN
                  IF q.inf.type = "none" THEN FEq(s'[q.t], s[q.t])
                  ELSE FLe(FAbs(FSub(s'[q.t], w.t)), FAdd(FAbs(FSub(s[q.t], w.t)), "1e-9"))]_rvars
Weatherly == phase \in {"report", "step"} /\ rows > 0 =>
    \A z \in 1..Len(h.spaces) : h.spaces[z].inf.type # "none" =>
        LET ts == {recs[r].t : r \in 1..Len(recs)}
        IN \E a, b \in ts : FLe(FSub(a, "1e-9"), s[h.spaces[z].vt]) /\ FLe(s[h.spaces[z].vt], FAdd(b, "1e-9"))
Terminates == <>Over
=============================================================================
