------------------------------- MODULE Cavity -------------------------------
(* A gas-filled cavity between two panes (crate heat, after ISO 15099):     *)
(* gas properties, Rayleigh and Nusselt numbers, heat-transfer coefficient. *)
(* Temperatures in C; the properties of the gases in K.                     *)
EXTENDS Integers, Sequences, Flt
Lin(a, b, t) == FAdd(a, FMul(b, t))
Conductivity(g, t) == CASE g = "Air" -> Lin("2.873e-3", "7.760e-5", t) [] g = "Argon" -> Lin("2.285e-3", "5.149e-5", t)
                        [] g = "Krypton" -> Lin("9.443e-4", "2.826e-5", t) [] g = "Xenon" -> Lin("4.538e-4", "1.723e-5", t)
Viscosity(g, t) == CASE g = "Air" -> Lin("3.723e-6", "4.94e-8", t) [] g = "Argon" -> Lin("3.379e-6", "6.451e-8", t)
                     [] g = "Krypton" -> Lin("2.213e-6", "7.777e-8", t) [] g = "Xenon" -> Lin("1.069e-6", "7.414e-8", t)
HeatCapacity(g, t) == CASE g = "Air" -> Lin("1002.7370", "1.2324e-2", t) [] g = "Argon" -> F("521.9285")
                        [] g = "Krypton" -> F("248.0907") [] g = "Xenon" -> F("158.3397")
Mass(g) == CASE g = "Air" -> F("28.97") [] g = "Argon" -> F("39.948") [] g = "Krypton" -> F("83.8") [] g = "Xenon" -> F("131.3")
Density(g, t) == FDiv(FMul(101325, Mass(g)), FMul("8314.46261815324", t))
K(t) == FAdd(t, "273.15")
Mean(a, b) == FDiv(FAdd(a, b), 2)
Deg(x) == FMul(x, FDiv(FPi, 180))
Cube(x) == FMul(x, FMul(x, x))
Sigma == "5.670374419e-8"

Rayleigh(g, th, tf, tb) ==
    LET dT == FAbs(FSub(tf, tb))
        t == Mean(K(tf), K(tb))
        rho == Density(g, t)
    IN IF FLt(dT, "1e-10") THEN F("0.0000001")
       ELSE FDiv(FMul(FMul(FMul(FMul(rho, rho), Cube(th)), FMul("9.81", HeatCapacity(g, t))), FDiv(dT, t)),
                 FMul(Viscosity(g, t), Conductivity(g, t)))

Pos(x) == FMax(x, 0)
\* --- Nusselt number by tilt of the cavity (0: heated from below, 90: vertical, 180: heated from above)
NuLow(ra, gam) ==
    LET rc == FMul(ra, FCos(gam))
        a == Pos(FSub(1, FDiv(1708, rc)))
        b == FSub(1, FDiv(FMul(1708, FPow(FSin(FMul("1.8", gam)), "1.6")), rc))
        c == FSub(FPow(FDiv(rc, 5830), FDiv(1, 3)), 1)
    IN FAdd(FAdd(1, FMul("1.44", FMul(a, b))), Pos(c))
Nu60(ra, ag) ==
    LET g == FDiv("0.5", FPow(FAdd(1, FPow(FDiv(ra, 3160), "20.6")), "0.1"))
        n1 == FPow(FAdd(1, FPow(FDiv(FMul("0.0936", FPow(ra, "0.314")), FAdd(1, g)), 7)), FDiv(1, 7))
        n2 == FMul(FAdd("0.104", FDiv("0.175", ag)), FPow(ra, "0.283"))
    IN FMax(n1, n2)
Nu90(ra, ag) ==
    LET n1 == IF FLe(ra, "1e4") THEN FAdd(1, FMul("1.7596678e-10", FPow(ra, "2.2984755")))
              ELSE IF FLe(ra, "5e4") THEN FMul("0.028154", FPow(ra, "0.4134"))
              ELSE FMul("0.0673838", FPow(ra, FDiv(1, 3)))
        n2 == FMul("0.242", FPow(FDiv(ra, ag), "0.272"))
    IN FMax(n1, n2)
Nusselt(ra, gam, ag) ==
    IF FLt(gam, Deg("59.5")) THEN NuLow(ra, gam)
    ELSE IF FLt(gam, Deg("60.5")) THEN Nu60(ra, ag)
    ELSE IF FLt(gam, Deg("89.5"))
         THEN LET x == FDiv(FSub(gam, Deg(60)), Deg(30)) IN FAdd(Nu60(ra, ag), FMul(x, FSub(Nu90(ra, ag), Nu60(ra, ag))))
    ELSE IF FLt(gam, Deg("90.5")) THEN Nu90(ra, ag)
    ELSE FAdd(1, FMul(FSub(Nu90(ra, ag), 1), FSin(gam)))

\* a cavity: [gas, th (thickness), h (height), angle (of the normal from the vertical), eout, ein]
\* the front is the upper side when angle = 0
Tilt(c, tf, tb) == IF FLt(tb, tf) THEN FSub(FPi, c.angle) ELSE F(c.angle)
Convection(c, tf, tb) ==
    FDiv(FMul(Nusselt(Rayleigh(c.gas, c.th, tf, tb), Tilt(c, tf, tb), FDiv(c.h, c.th)), Conductivity(c.gas, Mean(K(tf), K(tb)))), c.th)
Radiation(c, tf, tb) ==
    FDiv(FMul(FMul(4, Cube(Mean(K(tf), K(tb)))), FMul(FMul(Sigma, c.ein), c.eout)), FSub(1, FMul(FSub(1, c.ein), FSub(1, c.eout))))
U(c, tf, tb) == FAdd(Radiation(c, tf, tb), Convection(c, tf, tb))

\* Does a cavity sit so near a change of correlation that rounding decides which one applies?
OnEdge(c, tf, tb) ==
    LET g == Tilt(c, tf, tb) ra == Rayleigh(c.gas, c.th, tf, tb)
    IN \/ \E d \in {"59.5", "60.5", "89.5", "90.5"} : FClose(g, Deg(d), "1e-12", 0)
       \/ \E r \in {"1e4", "5e4"} : FClose(ra, r, "1e-9", 0)
-----------------------------------------------------------------------------
(* The cavity in a pane pair whose temperatures relax towards each other.   *)
CONSTANTS Cavities, Temps
VARIABLES cav, front, back
cvars == <<cav, front, back>>
Capacity == 20000   \* J/m2K of each pane
Dt == 60
Init == cav \in Cavities /\ front \in {F(t) : t \in Temps} /\ back \in {F(t) : t \in Temps}
Flow == FMul(U(cav, front, back), FSub(front, back))
Relax == /\ ~FNear(front, back)
         /\ front' = FSub(front, FMul(FDiv(Dt, Capacity), Flow))
         /\ back' = FAdd(back, FMul(FDiv(Dt, Capacity), Flow))
         /\ FLt("0.5", FAbs(FSub(front, back)))   \* (stop there: the approach is asymptotic)
         /\ UNCHANGED cav
Stop == UNCHANGED cvars
Next == Relax \/ Stop
Spec == Init /\ [][Next]_cvars
\* the heat goes from the warm to the cold side, at least at the rate of pure conduction (with the tolerance of the
\* standard's low-tilt correlation, which may dip below)
Sound == /\ FLt(0, Radiation(cav, front, back))
         /\ FLe(FMul("0.999", FDiv(Conductivity(cav.gas, Mean(K(front), K(back))), cav.th)), Convection(cav, front, back))
\* looking at it from the other side changes nothing
Flip(c) == [c EXCEPT !.angle = FSub(FPi, c.angle), !.ein = c.eout, !.eout = c.ein]
Symmetric == FNear(U(cav, front, back), U(Flip(cav), back, front)) \/ FNear(front, back)
\* heated from above, a horizontal cavity only conducts
Stratified == FEq(cav.angle, 0) /\ FLt(FAdd(back, "0.01"), front)
              => FNear(Convection(cav, front, back), FDiv(Conductivity(cav.gas, Mean(K(front), K(back))), cav.th))
\* heated from below it convects no less than heated from above
Unstable == FEq(cav.angle, 0) /\ FLt(front, back) => FLe(Convection(cav, back, front), FMul("1.001", Convection(cav, front, back)))
Approach == [][FLt(FAbs(FSub(front', back')), FAbs(FSub(front, back)))]_<<front, back>>
Energy == [][FNear(FAdd(front', back'), FAdd(front, back))]_<<front, back>>
==============================================================================
