---------------------------- MODULE ThermalTrace ----------------------------
(* Traces of the thermal model.  Part = "zone": the temperature of the      *)
(* spaces, with what the surfaces were at the end of the sub-step.          *)
(* Part = "wall": the surfaces, with the temperatures of the spaces.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
CONSTANT Part
AF == INSTANCE AirFlow WITH Spaces <- {}, Temps <- {}, Winds <- {}, Configs <- {}, Buildings <- {},
                            cfg <- 0, temp <- 0, vol <- 0, tinf <- 0, wea <- 0
WL == INSTANCE Wall WITH Surfaces <- {}, Starts <- {}, Airs <- {}, Suns <- {}, Dt <- 0, s <- 0, T <- 0, x <- 0
ZH == INSTANCE ZoneHeat WITH Vols <- {}, Gains <- {}, Winds <- {}, Outs <- {}, Hs <- {}, Starts <- {}, Dt <- 0,
                             vol <- 0, gain <- 0, inf <- 0, wall <- 0, T <- 0, n <- 0
CA == INSTANCE Calendar WITH HourGrid <- {}, DayJumps <- {}, HourJumps <- {}, month <- 0, day <- 0, hour <- 0, clock <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, c, state     \* c: index of the event that describes the model
tvars == <<i, c, state>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
C == Trace[c]
Init == i = 0 /\ c = 0 /\ state = <<>>
Near(a, b) == FClose(a, b, "1e-7", "1e-7")
Same(a, b) == FClose(a, b, "1e-12", "1e-12") \/ (FIsNaN(a) /\ FIsNaN(b))
SeqMax(q) == LET RECURSIVE M(_, _) M(k, acc) == IF k > Len(q) THEN acc ELSE M(k + 1, IF q[k] > acc THEN q[k] ELSE acc) IN M(1, 1)

\* --- creation
Accepted(e) == (\A k \in 1..Len(e.vols) : e.vols[k] # "none") /\ (\A k \in 1..Len(e.devs) : e.devs[k].target >= 0)
SameBoundary(a, b) == a.kind = b.kind /\ (a.kind = "Space" => a.space = b.space) /\ (a.kind = "Ambient" => Near(a.t, b.t))
Or(x, d) == IF x = "none" THEN F(d) ELSE F(x)
Fixed(x, y) == IF x = "none" THEN y = "none" ELSE y # "none" /\ Near(x, y)
Terrain(e) == IF e.terrain = "none" THEN "Suburbs" ELSE e.terrain
SurfaceOk(e, p, q) ==      \* p: as described, q: as built
    /\ Near(q.area, FMul(p.w, p.h)) /\ Near(q.perim, FMul(2, FAdd(p.w, p.h)))
    /\ Near(q.cos, FCos(p.tilt)) /\ Near(q.nx, FMul(FSin(p.az), FSin(p.tilt))) /\ Near(q.ny, FMul(FCos(p.az), FSin(p.tilt)))
    /\ (FClose(p.zc, 0, 0, "1e-3") \/ Near(q.wmod, AF!WindModifier(Terrain(e), p.zc)))
    /\ Near(q.fe, Or(p.fe, "0.84")) /\ Near(q.be, Or(p.be, "0.84"))
    /\ SameBoundary(p.front, q.front) /\ SameBoundary(p.back, q.back)
    /\ Fixed(p.fh, q.fh) /\ Fixed(p.bh, q.bh)
    /\ q.idx.nodes = Len(q.segs) /\ \A k \in {"node", "hf", "hb", "qf", "qb", "sf", "sb", "irf", "irb"} : q.idx[k] >= 0
    /\ \A k \in 1..q.idx.nodes : FEq(e.state[q.idx.node + k], 22)
    /\ \A k \in {"qf", "qb", "sf", "sb", "irf", "irb"} : FEq(e.state[q.idx[k] + 1], 0)
Create == /\ Event("create") /\ E.new
          /\ (Part = "zone" => E.res = IF Accepted(E) THEN "ok" ELSE "err")
          /\ IF E.res # "ok" THEN state' = <<>> /\ c' = 0
             ELSE /\ state' = E.state /\ c' = i + 1
                  /\ IF Part = "zone"
                     THEN /\ \A k \in 1..Len(E.spaces) : FEq(E.state[E.spaces[k].t + 1], 22)
                          /\ E.k = 2 * SeqMax(E.subs) /\ Near(E.dt, FDiv(3600, E.n * E.k))
                     ELSE /\ Len(E.surfs) = Len(E.spec)
                          /\ \A k \in 1..Len(E.spec) : SurfaceOk(E, E.spec[k], E.surfs[k])
\* --- someone else changes the state between the steps
Set == Event("set") /\ state' = E.state /\ c' = c

\* --- one sub-step
After(date, secs, w) == CA!ValidDate(w) /\ CA!SameInstant(CA!Doy(w), FAdd(CA!Doy(date), FDiv(secs, 86400)))
RECURSIVE Gains(_, _)
Gains(z, k) == IF k > Len(C.devs) THEN <<>>
               ELSE IF C.devs[k].target = z THEN <<state[C.devs[k].idx + 1]>> \o Gains(z, k + 1) ELSE Gains(z, k + 1)
RECURSIVE Faces(_, _)
Faces(z, k) ==
    IF k > Len(C.surfs) THEN <<>>
    ELSE LET s == C.surfs[k]
             in(b) == b.kind = "Space" /\ b.space = z
             fr == IF in(s.front) THEN <<ZH!Surface(E.state[s.idx.hf + 1], s.area, E.state[s.idx.node + 1])>> ELSE <<>>
             bk == IF in(s.back) THEN <<ZH!Surface(E.state[s.idx.hb + 1], s.area, E.state[s.idx.node + s.idx.nodes])>> ELSE <<>>
         IN fr \o bk \o Faces(z, k + 1)
Air(z) == LET q == C.spaces[z + 1] IN
    (IF q.inf >= 0 THEN <<ZH!AirFlow(state[q.inf + 1], state[q.tinf + 1])>> ELSE <<>>)
    \o (IF q.ven >= 0 THEN <<ZH!AirFlow(state[q.ven + 1], state[q.tven + 1])>> ELSE <<>>)
ZoneOk(z) == LET q == C.spaces[z + 1] k == q.t + 1
             IN Near(E.state[k], ZH!Step(C.vols[z + 1], state[k], Gains(z, 1), Air(z) \o Faces(z, 1), C.dt))
AirOf(b) == CASE b.kind = "Space" -> state[C.spaces[b.space + 1].t + 1] [] b.kind = "Ambient" -> b.t [] OTHER -> E.w[1].t
WallOk(q) ==
    LET N == q.idx.nodes
        at(k) == state[q.idx[k] + 1]
        now(k) == E.state[q.idx[k] + 1]
        T == [n \in 1..N |-> state[q.idx.node + n]]
        X == [n \in 1..N |-> E.state[q.idx.node + n]]
        tf == AirOf(q.front)
        x == [tf |-> tf, tb |-> IF q.back.kind = "Adiabatic" THEN tf ELSE AirOf(q.back), irf |-> at("irf"), irb |-> at("irb"),
              sf |-> at("sf"), sb |-> at("sb"), ws |-> E.w[1].ws, wd |-> E.w[1].wd]
        Y == WL!Step(q, T, x, C.dt)
    IN /\ WL!Edgy(q, T) \/ \A n \in 1..N : Near(X[n], Y[n])
       /\ Near(now("hf"), WL!Hf(q, X, x)) /\ Near(now("hb"), WL!Hb(q, X, x))
       /\ Near(now("qf"), WL!FlowF(q, X, x)) /\ Near(now("qb"), WL!FlowB(q, X, x))
       /\ \A k \in {"sf", "sb", "irf", "irb"} : Same(now(k), at(k))
\* (without spaces the weather is looked up all the same)
March == /\ Event("march") /\ E.res = "ok" /\ Len(E.state) = Len(state) /\ c' = c /\ state' = E.state
         /\ Len(E.w) = 1 /\ After(E.date, C.dt, E.w[1])
         /\ IF Part = "wall" THEN \A k \in 1..Len(C.surfs) : WallOk(C.surfs[k])
            ELSE /\ \A z \in 0..(Len(C.spaces) - 1) : ZoneOk(z)
                 /\ \A k \in 1..Len(C.devs) : Same(E.state[C.devs[k].idx + 1], state[C.devs[k].idx + 1])
                 /\ \A z \in 1..Len(C.spaces) : \A f \in {"inf", "tinf", "ven", "tven"} :
                        LET k == C.spaces[z][f] + 1 IN k > 0 => Same(E.state[k], state[k])
\* a whole step is its sub-steps, each at its time
Full == /\ Event("full") /\ E.res = "ok" /\ Len(E.state) = Len(state) /\ UNCHANGED <<c, state>>
        /\ Len(E.w) = C.k /\ \A j \in 1..C.k : After(E.date, FMul(j, C.dt), E.w[j])
        /\ \A k \in 1..Len(state) : Near(E.state[k], state[k]) \/ (FIsNaN(E.state[k]) /\ FIsNaN(state[k]))
Done == i = Len(Trace) /\ UNCHANGED tvars
Next == Create \/ Set \/ March \/ Full \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
