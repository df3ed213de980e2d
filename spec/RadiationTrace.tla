--------------------------- MODULE RadiationTrace ---------------------------
(* Radiation the code sets on walls and windows, against Radiation *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, at, before      \* at: the event that describes the sides; before: where their values of the step before are
R == INSTANCE Radiation WITH Kinds <- {}, Rays <- 1, Temps <- {}, Rows <- {}, Skies <- {}, Initial <- {}, Steps <- 0, side <- [kind |-> ""], weather <- [dry |-> ""], n <- 0
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0 /\ at = 0 /\ before = 0
Same(a, b) == FClose(a, b, "1e-7", "1e-7")
Setup == Event("setup") /\ at' = i' /\ before' = i' /\ E.res = "ok"
\* a negative value of the sky may count
Suns(kind, incident, old) == {R!Sun(kind, incident, old)} \cup (IF FLt(incident, 0) /\ R!SunReaches(kind) THEN {FDiv(FAdd(incident, old), 2)} ELSE {})
Is(x, S) == IF \E y \in S : Same(x, y) THEN TRUE ELSE FALSE
View(s) == [sky |-> s[1], ground |-> s[2], air |-> s[3]]
March ==
  /\ Event("march") /\ before' = i' /\ UNCHANGED at
  /\ E.res = "ok"
  /\ \E hir \in {TLCEval(IF E.hir = "none" THEN R!DerivedIr(E.dry, E.dew, E.cover) ELSE F(E.hir))} :
     \E day \in {R!Day(E.direct, E.diffuse)} :
       IF \A k \in 1..Len(Trace[at].sides) :
            LET s == Trace[at].sides[k]
            IN /\ Same(E.ir[k], R!Infrared(s.kind, E.temp[k], View(s.view), Trace[before].ir[k], E.dry, hir))
               /\ IF day THEN Is(E.sun[k], Suns(s.kind, IF R!SunReaches(s.kind) THEN FDot(s.row, E.vec) ELSE F(0), Trace[before].sun[k]))
                  ELSE IF FClose(FAdd(E.direct, E.diffuse), "1e-4", "1e-6", 0) THEN TRUE ELSE FEq(E.sun[k], 0)
       THEN TRUE ELSE FALSE
\* what a small side sees of a rectangle in front of its middle
Corner(x, y) == FDiv(FAdd(FMul(FDiv(x, FSqrt(FAdd(1, FMul(x, x)))), FAtan2(FDiv(y, FSqrt(FAdd(1, FMul(x, x)))), 1)),
                          FMul(FDiv(y, FSqrt(FAdd(1, FMul(y, y)))), FAtan2(FDiv(x, FSqrt(FAdd(1, FMul(y, y)))), 1))), FMul(2, FPi))
Facing(w, h, d) == FMul(4, Corner(FDiv(w, FMul(2, d)), FDiv(h, FMul(2, d))))
\* six times what can be expected from sampling it, and a little for the size of the side
Around(x, y, N) == FClose(x, y, 0, FAdd("0.004", FMul(6, FSqrt(FDiv("0.25", N)))))
Blocked(what, w, h, d) == IF what = "free" THEN F(0) ELSE IF what = "box" THEN F(1) ELSE Facing(w, h, d)
Looks ==
  /\ Event("look") /\ UNCHANGED <<at, before>>
  /\ E.res = "ok"
  /\ \E blocked \in {TLCEval(Blocked(E.what, E.w, E.h, E.d))} : \E s \in {TLCEval(FPow(E.view[1], FDiv(2, 3)))} : \E up \in {FDiv(FAdd(1, E.nz), 2)} :
       /\ FClose(FSum(E.view), 1, 0, "1e-9")
       /\ \A k \in 1..3 : FLe(0, E.view[k])
       /\ Around(FAdd(s, E.view[2]), FSub(1, blocked), E.rays)
       /\ IF E.what = "free" THEN Around(s, up, E.rays) ELSE IF E.what = "box" THEN FEq(s, 0) /\ FEq(E.view[2], 0)
          ELSE FLe(s, FAdd(up, "0.02")) /\ FLe(E.view[2], FAdd(FSub(1, up), "0.02"))
       \* symmetric about the horizon, or altogether to one side
       /\ IF E.what = "facing" /\ FClose(E.nz, 0, 0, "1e-6") THEN Around(s, E.view[2], E.rays) ELSE TRUE
       /\ IF ~E.sun THEN \A k \in 1..Len(E.dc) : FEq(E.dc[k], 0)
          ELSE /\ \A k \in 1..Len(E.dc) : FLe(0, E.dc[k])
               /\ \E total \in {FDiv(FSum(E.dc), FPi)} :
                    /\ FLe(FSub(FSub(1, blocked), FAdd("0.004", FDiv(3, FSqrt(E.samples)))), total)
                    /\ FLe(total, FAdd(FAdd(FSub(1, blocked), FMul(blocked, E.rho)), FAdd("0.004", FDiv(3, FSqrt(E.samples)))))
               /\ IF E.what = "free" THEN Around(FDiv(E.dc[1], FPi), FSub(1, up), E.samples) ELSE TRUE
               \* patch by patch: nothing from behind, and its share from ahead
               /\ IF \A k \in 2..Len(E.dc) :
                       /\ (E.rho = "0" /\ FLt(E.dots[k - 1], FNeg(E.radius))) => FEq(E.dc[k], 0)
                       /\ FLt(E.radius, E.dots[k - 1]) =>
                            IF E.what = "free"
                            THEN LET p == FDiv(FMul(E.omega[k - 1], E.dots[k - 1]), FPi)
                                 IN FClose(FDiv(E.dc[k], FPi), p, "0.2", FMul(6, FSqrt(FDiv(p, E.samples))))
                            ELSE TRUE
                  THEN TRUE ELSE FALSE
Good(what) == what = "good"
Load == Event("load") /\ UNCHANGED <<at, before>> /\ E.res = IF Good(E.what) THEN "ok" ELSE "err"
\* what was calculated is written, and what was written is what is used
File == Event("file") /\ UNCHANGED <<at, before>> /\ E.written
Done == i = Len(Trace) /\ UNCHANGED <<i, at, before>>
Next == Setup \/ March \/ Looks \/ Load \/ File \/ Done
Spec == Init /\ [][Next]_<<i, at, before>>
=============================================================================
