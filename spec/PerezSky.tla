------------------------------ MODULE PerezSky ------------------------------
(* The radiance of the patches of a sky (Perez's all-weather model, as       *)
(* gendaymtx applies it) for the sun and the weather of an instant.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt, PerezTables
D == INSTANCE Dome WITH Divisions <- {}, m <- 0, row <- 0, col <- 0, covered <- 0
S == INSTANCE Sun WITH Places <- {}, Days <- {}, StepMinutes <- 1, place <- 0, day <- 0, minute <- 0, sun <- 0
Efficacy == 179
Pos(x) == FMax(0, x)
Clamp(x, lo, hi) == FMax(lo, FMin(hi, x))
\* a division, once and for all: k stands for the patch k - 1
Patches(m) == TLCEval([k \in 1..D!NBins(m) |-> [dir |-> TLCEval(D!Centre(m, k - 1)), area |-> TLCEval(D!Area(m, k - 1))]])
Dot(u, v) == FSum(<<FMul(u.x, v.x), FMul(u.y, v.y), FMul(u.z, v.z)>>)
Zenith(cosz) == IF FLe(cosz, 0) THEN FDiv(FPi, 2) ELSE IF FLe(FCos(S!Rad(3)), cosz) THEN S!Rad(3) ELSE FAcos(cosz)
Clearness(dif, dir, z) ==
    LET k == FMul("1.041", FPow(z, 3)) IN FDiv(FAdd(FDiv(FAdd(dif, dir), dif), k), FAdd(1, k))
Epsilon(dif, dir, z) == IF FLe(dif, 0) THEN F("11.9") ELSE FMin("11.9", Clearness(dif, dir, z))
Brightness(dif, z, extra) == FMax("0.01", FDiv(FMul(dif, S!AirMass(z)), extra))
Category(eps) == 1 + Cardinality({k \in 1..7 : FLe(<<"1.065", "1.230", "1.5", "1.95", "2.8", "4.5", "6.2">>[k], eps)})
Water(dew) == FExp(FSub(FMul("0.07", dew), "0.075"))
DirectLuminous(dew, z, delta, c) ==
    LET r == DirectRatio[c] IN Clamp(FSum(<<r[1], FMul(r[2], Water(dew)), FMul(r[3], FExp(FSub(FMul("5.73", z), 5))), FMul(r[4], delta)>>), 0, "9e9")
DiffuseLuminous(dew, cosz, delta, c) ==
    LET r == DiffuseRatio[c] IN FSum(<<r[1], FMul(r[2], Water(dew)), FMul(r[3], cosz), FMul(r[4], FLn(delta))>>)
Params(z, eps, delta0) ==
    LET c == Category(eps)
        delta == IF FLt("1.065", eps) /\ FLt(eps, "2.8") THEN FMax("0.2", delta0) ELSE delta0
        x(i, j) == Sky[c][4 * (i - 1) + j]
        lin(i) == FAdd(FAdd(x(i, 1), FMul(x(i, 2), z)), FMul(delta, FAdd(x(i, 3), FMul(x(i, 4), z))))
        inner(i) == FMul(delta, FAdd(x(i, 1), FMul(x(i, 2), z)))
    IN IF c # 1 THEN <<lin(1), lin(2), lin(3), lin(4), lin(5)>>
       ELSE <<lin(1), lin(2), FSub(FExp(FPow(inner(3), x(3, 3))), x(3, 4)),
              FAdd(FAdd(FNeg(FExp(inner(4))), x(4, 3)), FMul(delta, x(4, 4))), lin(5)>>
\* relative luminance: never negative
Relative(p, sun, v) ==
    LET cg == Clamp(Dot(sun, v), "-1", 1) cz == FMax("0.01", v.z)
    IN Pos(FMul(FAdd(1, FMul(p[1], FExp(FDiv(p[2], cz)))),
                FSum(<<F(1), FMul(p[3], FExp(FMul(p[4], FAcos(cg)))), FMul(p[5], FMul(cg, cg))>>)))
\* all that a sky needs: w = [dew, dif, dir], the sun and the solar time n
\* (Stages are bound to singletons, so that TLC evaluates each of them once.)
The(set) == CHOOSE x \in set : TRUE
Conditions(w, sun, n) ==
    The({The({[z |-> z, delta |-> d[1], eps |-> d[2], c |-> Category(d[2])] : d \in {<<Brightness(w.dif, z, S!Extraterrestrial(n)), Epsilon(w.dif, w.dir, z)>>}})
          : z \in {Zenith(sun.z)}})
Total(p, sun, tregenza) == FSum([k \in 1..(Len(tregenza) - 1) |-> FMul(FMul(Relative(p, sun, tregenza[k + 1].dir), tregenza[k + 1].area), tregenza[k + 1].dir.z)])
Luminous(w, sun, c, units) == IF units = "solar" THEN <<w.dif, w.dir>>
                              ELSE <<FDiv(FMul(w.dif, DiffuseLuminous(w.dew, sun.z, c.delta, c.c)), Efficacy), FDiv(FMul(w.dir, DirectLuminous(w.dew, c.z, c.delta, c.c)), Efficacy)>>
Setup(w, sun, n, units, tregenza) ==
    The({The({The({[p |-> p, dif |-> l[1], dir |-> l[2], sun |-> sun, norm |-> IF FLt("1e-4", t) THEN FDiv(l[1], t) ELSE F(0)]
                   : t \in {Total(p, sun, tregenza)}, l \in {Luminous(w, sun, c, units)}})
              : p \in {Params(c.z, c.eps, c.delta)}})
         : c \in {Conditions(w, sun, n)}})
Radiance(s, v) == FMul(Relative(s.p, s.sun, v), s.norm)
GroundRadiance(s, albedo) == IF FLt("1e-8", albedo) THEN FDiv(FMul(albedo, FAdd(s.dif, FMul(s.dir, Pos(s.sun.z)))), FPi) ELSE F(0)
SkyPart(s, patches) == TLCEval([k \in 1..Len(patches) |-> IF k = 1 THEN F(0) ELSE Radiance(s, patches[k].dir)])
\* the sun goes to the four patches whose centres are the nearest
Weight(d) == FDiv(1, FSub("1.002", d))
Nearest(s, patches) == The({SubSeq(SortSeq(dots, LAMBDA a, b : FLt(b.d, a.d)), 1, 4) : dots \in {TLCEval([k \in 1..Len(patches) |-> [k |-> k, d |-> Dot(patches[k].dir, s.sun)]])}})
Shares(s, patches) == The({TLCEval([j \in 1..4 |-> [k |-> four[j].k, v |-> FDiv(FDiv(FMul(Weight(four[j].d), s.dir), FSum([i \in 1..4 |-> Weight(four[i].d)])), patches[four[j].k].area)]])
                           : four \in {Nearest(s, patches)}})
SunPart(s, patches) == The({TLCEval([k \in 1..Len(patches) |-> FSum([j \in 1..4 |-> IF share[j].k = k THEN share[j].v ELSE F(0)])]) : share \in {Shares(s, patches)}})
Dark(w, sun) == FLt(FAdd(w.dif, w.dir), "1e-4") \/ sun = <<>>
Zero(patches) == [k \in 1..Len(patches) |-> F(0)]
\* sun: <<>> or <<the direction towards it>>
Vector(w, sun, n, units, albedo, withSky, withSun, tregenza, patches) ==
    IF Dark(w, sun) THEN Zero(patches)
    ELSE The({The({TLCEval([k \in 1..Len(patches) |-> IF k = 1 THEN GroundRadiance(s, albedo) ELSE FAdd(a[k], b[k])])
                   : a \in {IF withSky THEN SkyPart(s, patches) ELSE Zero(patches)}, b \in {IF withSun /\ FLt("1e-4", w.dir) THEN SunPart(s, patches) ELSE Zero(patches)}})
              : s \in {Setup(w, sun[1], n, units, tregenza)}})
-----------------------------------------------------------------------------
\* one vector, updated through the day
CONSTANTS Place, Days, Minutes, Weathers, Divisions
T1 == TLCEval(Patches(1))
VARIABLES m, clock, w, vec, started
pvars == <<m, clock, w, vec, started>>
N == FAdd(clock.day, FDiv(clock.minute, 1440))
SunAt(n) == IF S!Up(Place, n) THEN <<S!Vector(Place, n)>> ELSE <<>>
VecAt(mf, c, wt) == The({The({Vector(wt, sun, n, "solar", "0.2", TRUE, TRUE, T1, q) : sun \in {SunAt(n)}, q \in {IF mf = 1 THEN T1 ELSE Patches(mf)}})
                         : n \in {FAdd(c.day, FDiv(c.minute, 1440))}})
Init == m \in Divisions /\ clock \in {[day |-> d, minute |-> 0] : d \in Days} /\ w = [dew |-> 0, dif |-> 0, dir |-> 0] /\ vec = <<>> /\ started = FALSE
Update == \E wt \in Weathers : /\ w' = wt /\ clock.minute < 1440
                               /\ clock' = [clock EXCEPT !.minute = @ + Minutes]
                               /\ vec' = VecAt(m, clock', wt) /\ started' = TRUE /\ UNCHANGED m
Next == Update
Spec == Init /\ [][Next]_pvars
Night == started /\ (SunAt(N) = <<>> \/ FLt(FAdd(w.dif, w.dir), "1e-4")) => \A k \in 1..Len(vec) : FEq(vec[k], 0)
Positive == \A k \in 1..Len(vec) : FLe(0, vec[k])
\* (a sky so bright that all of it would be negative gives no light)
\* what Tregenza's sky sends to the ground is the diffuse radiation, and the sun is all there
Conserved == started /\ SunAt(N) # <<>> /\ FLt(1, w.dif) /\ m = 1 =>
    \E n \in {N}, t1 \in {T1} : \E u \in {SunAt(n)[1]} : \E s \in {Setup(w, u, n, "solar", t1)} : \E sky \in {SkyPart(s, t1)}, direct \in {SunPart(s, t1)} :
       /\ FLt(0, s.norm) => FClose(FSum([k \in 1..Len(t1) |-> FMul(FMul(sky[k], t1[k].area), t1[k].dir.z)]), w.dif, "1e-9", 0)
       /\ FClose(FSum([k \in 1..Len(t1) |-> FMul(direct[k], t1[k].area)]), w.dir, "1e-9", "1e-9")
       /\ FClose(vec[1], FDiv(FMul("0.2", FAdd(w.dif, FMul(w.dir, s.sun.z))), FPi), "1e-9", 0)
\* finer skies see about the same
Finer == started /\ SunAt(N) # <<>> /\ FLt(1, w.dif) /\ m > 1 =>
    \E n \in {N} : \E u \in {SunAt(n)[1]} : \E s \in {Setup(w, u, n, "solar", T1)} : \E q \in {Patches(m)} : \E sky \in {SkyPart(s, q)} :
       FLt(0, s.norm) => FClose(FSum([k \in 1..Len(q) |-> FMul(FMul(sky[k], q[k].area), q[k].dir.z)]), w.dif, "0.3", 0)
=============================================================================
