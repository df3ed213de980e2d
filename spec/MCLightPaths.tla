---- MODULE MCLightPaths ----
EXTENDS LightPaths
\* what is told of surfaces, on some of them
Cs == {"0.05", "0.3", "0.7", "0.99"}
Ns == {"1.1", "1.52", "2.4"}
ASSUME \A c \in Cs, n \in Ns : LET r == Reflects(c, 1, n) IN FLt(0, r) /\ FLt(r, 1)
\* it is the same from the other side
ASSUME \A c \in Cs, n \in Ns : FNear(Reflects(c, 1, n), Reflects(FSqrt(Cos2(c, 1, n)), n, 1))
\* nothing is lost in clear glass, and more the darker it is
ASSUME \A c \in Cs, n \in Ns : LET p == Pane(c, n, One) IN \A j \in 1..3 : FNear(FAdd(p.r[j], p.t[j]), 1)
ASSUME \A c \in Cs, n \in Ns : LET p == Pane(c, n, <<"0.9", "0.5", "0.01">>) IN FLt(FAdd(p.r[1], p.t[1]), 1) /\ FLt(p.t[2], p.t[1]) /\ FLt(p.t[3], p.t[2]) /\ FLt(p.r[3], p.r[2])
\* refraction bends and comes back
Ds == {<<"0.6", "0", "-0.8">>, <<"0", "0", "-1">>, <<"0.8", "0.48", "-0.36">>}
Z == <<F(0), F(0), F(1)>>
ASSUME \A d \in Ds, n \in Ns : LET r == Refracted(d, Z, 1, n) IN FNear(Dot(r, r), 1) /\ \A j \in 1..3 : FClose(Refracted(r, Z, n, 1)[j], d[j], "1e-9", "1e-9")
ASSUME \A d \in Ds : \A j \in 1..3 : FEq(Mirrored(Mirrored(d, Z), Z)[j], d[j])
\* in a block, all that goes in comes out, and what comes straight through a slab is not turned
Cube == LET U(j, x) == [q \in 1..3 |-> IF q = j THEN F(x) ELSE F(0)] IN [k \in 1..6 |-> LET x == IF k > 3 THEN -1 ELSE 1 IN [n |-> U(IF k > 3 THEN k - 3 ELSE k, x), o |-> U(IF k > 3 THEN k - 3 ELSE k, x)]]
P0 == <<F("0.2"), F("0.1"), F(1)>>
RECURSIVE Shares(_)
Shares(s) == IF s = <<>> THEN F(0) ELSE FAdd(Head(s).share, Shares(Tail(s)))
ASSUME \A d \in Ds, n \in Ns : LET os == Outs(Cube, n, P0, Refracted(d, Z, 1, n), 1, 40) IN
  \A k \in 1..Len(os) : os[k].clear => FNear(Dot(os[k].d, os[k].d), 1)
ASSUME \A n \in {"1.1", "1.3"} : LET d == <<"0.3", "0.2", FNeg(FSqrt("0.87"))>>  os == Outs(Cube, n, P0, Refracted(d, Z, 1, n), 1, 12) IN (\A k \in 1..Len(os) : os[k].clear) => FClose(Shares(os), 1, "1e-6", 0)
ASSUME LET d == <<"0.1", "0.2", FNeg(FSqrt("0.95"))>>  os == Outs(Cube, "1.52", P0, Refracted(d, Z, 1, "1.52"), 1, 1) IN Len(os) = 1 /\ \A j \in 1..3 : FClose(os[1].d[j], d[j], "1e-9", "1e-12")
====
