----------------------------- MODULE Radiation -----------------------------
(* What the radiation module sets on each side of each wall and window (light/src/solar_model.rs, solar_surface.rs, optical_info.rs):
   - once, what a side sees: rays that leave it reach the sky, the ground or another object; and how much of each patch of the sky it gets;
   - every step, the long-wave radiation it receives, by what lies in front of it, and the solar one, averaged with that of the step before. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt
CONSTANTS Kinds,        \* what lies in front of a side
          Rays,         \* how many rays it sends
          Temps,        \* temperatures of nodes, and of ambients
          Rows,         \* daylight coefficients
          Skies,        \* weather: [dry, hir, direct, diffuse, patches]
          Initial,      \* irradiance before the first step
          Steps
VARIABLES side, weather, n
vars == <<side, weather, n>>
Sigma == F("5.670374419e-8")
Emits(t) == FMul(Sigma, FPow(FAdd(t, "273.15"), 4))
\* long-wave radiation of the sky, when not given: Clark and Allen, and the cover of the sky
DerivedIr(dry, dew, cover) ==
  FMul(FMul(FAdd("0.787", FMul("0.764", FLn(FDiv(FAdd(dew, "273.15"), 273)))),
            FSum(<<1, FMul("0.0224", cover), FMul("-0.0035", FPow(cover, 2)), FMul("0.00028", FPow(cover, 3))>>)), Emits(dry))
SunReaches(kind) == kind \in {"outdoor", "space"}
\* of the part of the view that is open sky, some is taken to be air
Views(open, ground, blocked) == [sky |-> FMul(open, FSqrt(open)), ground |-> ground, air |-> FAdd(FMul(open, FSub(1, FSqrt(open))), blocked)]
\* long-wave radiation on a side: old, the one it had; temp, that of its node or of the ambient
Infrared(kind, temp, view, old, dry, hir) ==
  IF kind = "outdoor" THEN FAdd(FMul(FAdd(view.ground, view.air), Emits(dry)), FMul(view.sky, hir))
  ELSE IF kind \in {"space", "ambient"} THEN Emits(temp) ELSE old
Day(direct, diffuse) == FLe("1e-4", FAdd(direct, diffuse))
Sun(kind, incident, old) == IF SunReaches(kind) THEN FDiv(FAdd(FMax(0, incident), old), 2) ELSE F(0)
-----------------------------------------------------------------------------
Nothing == [sky |-> F(0), ground |-> F(0), air |-> F(0)]
Init ==
  /\ side \in {[kind |-> k, temp |-> t, view |-> Nothing, row |-> r, ir |-> F(s), sun |-> F(s)] : k \in Kinds, t \in Temps, r \in Rows, s \in Initial}
  /\ SunReaches(side.kind) \/ \A p \in DOMAIN side.row : FEq(side.row[p], 0)
  /\ weather = [dry |-> "0", hir |-> "0", direct |-> "0", diffuse |-> "0", patches |-> <<>>] /\ n = 0
\* s of the rays go to the sky and g to the ground; the others hit something
Look == n = 0 /\ n' = 1 /\ UNCHANGED weather
        /\ \E s \in 0..Rays : \E g \in 0..(Rays - s) : side' = [side EXCEPT !.view = Views(FDiv(s, Rays), FDiv(g, Rays), FDiv(Rays - s - g, Rays))]
March == n > 0 /\ n <= Steps /\ n' = n + 1
         /\ \E w \in Skies :
              /\ weather' = w
              /\ side' = [side EXCEPT !.ir = Infrared(side.kind, side.temp, side.view, side.ir, w.dry, w.hir),
                                      !.sun = IF Day(w.direct, w.diffuse) THEN Sun(side.kind, FDot(side.row, w.patches), side.sun) ELSE F(0)]
Next == Look \/ March
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Whole == n > 0 => FClose(FSum(<<side.view.sky, side.view.ground, side.view.air>>), 1, 0, "1e-12")
Between(x, a, b) == FLe(FSub(FMin(a, b), "1e-9"), x) /\ FLe(x, FAdd(FMax(a, b), "1e-9"))
\* outdoors, no colder than the sky and no warmer than the air
Bounded == (n > 1 /\ side.kind = "outdoor") => Between(side.ir, Emits(weather.dry), weather.hir)
\* nothing is exchanged with a space
NoExchange == (n > 1 /\ side.kind \in {"space", "ambient"}) => FEq(side.ir, Emits(side.temp))
DarkNight == (n > 1 /\ ~Day(weather.direct, weather.diffuse)) => FEq(side.sun, 0)
Shade == (n > 1 /\ ~SunReaches(side.kind)) => FEq(side.sun, 0)
Positive == FLe(0, side.sun)
\* the ground and the other side of an adiabatic wall have no radiation of their own
Left == [][side.kind \in {"ground", "adiabatic"} => FEq(side'.ir, side.ir)]_vars
\* half way to what falls on it, every step
Halves == [][(n > 0 /\ SunReaches(side.kind) /\ Day(weather'.direct, weather'.diffuse)) =>
              LET to == FDot(side.row, weather'.patches) IN FClose(FSub(to, side'.sun), FDiv(FSub(to, side.sun), 2), "1e-9", "1e-9")]_vars
=============================================================================
