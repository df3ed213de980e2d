-------------------------------- MODULE Sun ---------------------------------
(* The sun over a place: Duffie and Beckman, chapter 1.  Angles in radians;  *)
(* longitude and standard meridian positive to the west; n: the day of   *)
(* the year with its fraction, in solar time unless said otherwise.          *)
(* x points east, y north, z up.                                             *)
EXTENDS Integers, Sequences, TLC, Flt
Rad(d) == FDiv(FMul(d, FPi), 180)
Deg(r) == FDiv(FMul(r, 180), FPi)
B(n) == FDiv(FMul(FMul(FSub(n, 1), 2), FPi), 365)
Fourier(n, c0, cs) == FSum(<<F(c0)>> \o [k \in 1..Len(cs) |-> FAdd(FMul(cs[k][1], FCos(FMul(k, B(n)))), FMul(cs[k][2], FSin(FMul(k, B(n)))))])
EquationOfTime(n) == FMul("229.2", Fourier(n, "0.000075", <<<<"0.001868", "-0.032077">>, <<"-0.014615", "-0.04089">>>>))      \* minutes
Declination(n) == Fourier(n, "0.006918", <<<<"-0.399912", "0.070257">>, <<"-0.006758", "0.000907">>, <<"-0.002697", "0.00148">>>>)
Extraterrestrial(n) == FMul("1367.7", Fourier(n, "1.00011", <<<<"0.034221", "0.00128">>, <<"0.000719", "0.000077">>>>))
\* solar minus standard time, in minutes
Lead(p, n) == FAdd(FMul(4, Deg(FSub(p.meridian, p.longitude))), EquationOfTime(n))
ToSolar(p, n) == FAdd(n, FDiv(Lead(p, n), 1440))
ToStandard(p, n) == FSub(n, FDiv(Lead(p, n), 1440))
Time(p, t) == IF t.kind = "solar" THEN F(t.n) ELSE ToSolar(p, t.n)
HourAngle(n) == FMul(FSub(FMod(n, 1), "0.5"), FMul(2, FPi))
\* towards the sun
Vector(p, n) ==
    LET d == Declination(n) w == HourAngle(n) lat == p.latitude
    IN [x |-> FNeg(FMul(FCos(d), FSin(w))),
        y |-> FSub(FMul(FSin(d), FCos(lat)), FMul(FMul(FCos(d), FSin(lat)), FCos(w))),
        z |-> FAdd(FMul(FSin(lat), FSin(d)), FMul(FMul(FCos(lat), FCos(d)), FCos(w)))]
Up(p, n) == FLe(0, Vector(p, n).z)
\* half of the day length, in days; the sun neither rises nor sets beyond [-1, 1]
CosHalfDay(p, n) == FNeg(FMul(FTan(p.latitude), FTan(Declination(n))))
HalfDay(p, n) == FDiv(FAcos(CosHalfDay(p, n)), FMul(2, FPi))
Polar(p, n) == FLe(1, FAbs(CosHalfDay(p, n)))
Noon(n) == FAdd(FFloor(n), "0.5")
Sunrise(p, n) == FSub(Noon(n), HalfDay(p, n))
Sunset(p, n) == FAdd(Noon(n), HalfDay(p, n))
\* relative air mass, and Hottel's clear sky (elevation in m)
AirMass(zenith) == FDiv(1, FAdd(FCos(zenith), FMul("0.15", FPow(FSub("93.885", Deg(zenith)), "-1.253"))))
Sq(x) == FMul(x, x)
Beam(z, elevation) ==
    LET A == FDiv(elevation, 1000)
        a0 == FSub("0.4237", FMul("0.00821", Sq(FSub(6, A))))
        a1 == FAdd("0.5055", FMul("0.00595", Sq(FSub("6.5", A))))
        k == FAdd("0.2711", FMul("0.01858", Sq(FSub("2.5", A))))
    IN FAdd(a0, FMul(a1, FExp(FDiv(FNeg(k), z))))
ClearSky(n, z, elevation) == LET tb == Beam(z, elevation)
                             IN FMul(FMul(Extraterrestrial(n), FAdd(tb, FSub("0.271", FMul("0.294", tb)))), z)
-----------------------------------------------------------------------------
CONSTANTS Places, Days, StepMinutes
VARIABLES place, day, minute, sun
svars == <<place, day, minute, sun>>
At(d, m) == FAdd(d, FDiv(m, 1440))
Init == place \in Places /\ day \in Days /\ minute = 0 /\ sun = Vector(place, At(day, 0))
Tick == /\ minute + StepMinutes < 1440 /\ minute' = minute + StepMinutes
        /\ sun' = Vector(place, At(day, minute')) /\ UNCHANGED <<place, day>>
Next == Tick
Spec == Init /\ [][Next]_svars
Now == At(day, minute)
Unit == FClose(FSum(<<Sq(sun.x), Sq(sun.y), Sq(sun.z)>>), 1, 0, "1e-12")
\* east in the morning, west in the afternoon
EastWest == (minute > 0 /\ minute < 720 => FLt(0, sun.x)) /\ (minute > 720 => FLt(sun.x, 0)) /\ (minute = 720 => FClose(sun.x, 0, 0, "1e-12"))
\* it climbs until noon, then descends
Climbs == [][IF minute' <= 720 THEN FLe(FSub(sun.z, "1e-4"), sun'.z) ELSE FLe(sun'.z, FAdd(sun.z, "1e-4"))]_svars
\* at noon it stands as far from the zenith as the place from the latitude it stands above, to the north or to the south
NoonHeight == minute = 720 => FClose(sun.z, FCos(FSub(place.latitude, Declination(Now))), 0, "1e-12")
                              /\ (FLt(Declination(Now), place.latitude) => FLt(sun.y, "1e-9"))
                              /\ (FLt(place.latitude, Declination(Now)) => FLt("-1e-9", sun.y))
\* above the horizon exactly between sunrise and sunset
DayTime == ~Polar(place, Now) => (FLt("1e-9", sun.z) => FLe(Sunrise(place, Now), Now) /\ FLe(Now, Sunset(place, Now)))
                                 /\ (FLt(sun.z, "-1e-9") => FLt(Now, Sunrise(place, Now)) \/ FLt(Sunset(place, Now), Now))
PolarDay == Polar(place, Now) => (FLt("-1e-9", sun.z) <=> FLt(CosHalfDay(place, Now), 0))
\* the day of one hemisphere is the night of the other
Mirror == LET m == Vector([place EXCEPT !.latitude = FNeg(place.latitude)], FAdd(Now, "0.5")) q == Vector(place, Now)
          IN FClose(m.z, FNeg(q.z), 0, "0.006")
Clock == FClose(ToStandard(place, ToSolar(place, Now)), Now, 0, "5e-5")
Bounded == FLe(FAbs(Declination(Now)), Rad("23.6")) /\ FLe(FAbs(EquationOfTime(Now)), 17) /\ FLe(1300, Extraterrestrial(Now)) /\ FLe(Extraterrestrial(Now), 1420)
Clear == FLe("0.02", sun.z) => FLe(0, ClearSky(Now, sun.z, 200)) /\ FLe(ClearSky(Now, sun.z, 200), FMul(Extraterrestrial(Now), sun.z))
=============================================================================
