--------------------------- MODULE PlacementTrace ---------------------------
(* Transformations and shapes of the code against Placement: steps are applied one after the other, the last first; a ray hits the first part of a
   shape it comes across.  Everything is worked out in the coordinates of the shape, undoing the steps one by one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, sh
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0 /\ sh = <<>>
(* ---- vectors ---- *)
Add(a, b) == << FAdd(a[1], b[1]), FAdd(a[2], b[2]), FAdd(a[3], b[3]) >>
Sub(a, b) == << FSub(a[1], b[1]), FSub(a[2], b[2]), FSub(a[3], b[3]) >>
Cross(a, b) == << FSub(FMul(a[2], b[3]), FMul(a[3], b[2])), FSub(FMul(a[3], b[1]), FMul(a[1], b[3])), FSub(FMul(a[1], b[2]), FMul(a[2], b[1])) >>
Dot(a, b) == FDot(a, b)
Norm(a) == FSqrt(Dot(a, a))
Times(a, s) == << FMul(a[1], s), FMul(a[2], s), FMul(a[3], s) >>
Over(a, s) == << FDiv(a[1], s), FDiv(a[2], s), FDiv(a[3], s) >>
Dir(a) == CHOOSE x \in {Over(a, n) : n \in {Norm(a)}} : TRUE
Along(o, d, t) == Add(o, Times(d, t))
Same(a, b, tol) == FLe(Norm(Sub(a, b)), tol)
(* ---- steps ---- *)
Nx(a) == (a % 3) + 1
\* a turn about an axis takes the next axis towards the one after
Turn(v, a, deg) == LET r == FDiv(FMul(deg, FPi), 180)  c == FCos(r)  s == FSin(r)  y == v[Nx(a)]  z == v[Nx(Nx(a))]
                       y1 == FSub(FMul(c, y), FMul(s, z))  z1 == FAdd(FMul(s, y), FMul(c, z))
                   IN [k \in 1..3 |-> IF k = a THEN F(v[k]) ELSE IF k = Nx(a) THEN y1 ELSE z1]
By(op) == <<op[3], op[4], op[5]>>
Scaled(v, s) == << FMul(v[1], s[1]), FMul(v[2], s[2]), FMul(v[3], s[3]) >>
Shrunk(v, s) == << FDiv(v[1], s[1]), FDiv(v[2], s[2]), FDiv(v[3], s[3]) >>
\* one step, of a point ("p"), a vector ("v") or a normal ("n"); or back
Do(op, v, k) == TLCEval(IF op[1] = "turn" THEN Turn(v, op[2], op[3]) ELSE IF op[1] = "shift" THEN IF k = "p" THEN Add(v, By(op)) ELSE v
                        ELSE IF k = "n" THEN Shrunk(v, By(op)) ELSE Scaled(v, By(op)))
Undo(op, v, k) == TLCEval(IF op[1] = "turn" THEN Turn(v, op[2], FNeg(op[3])) ELSE IF op[1] = "shift" THEN IF k = "p" THEN Sub(v, By(op)) ELSE v
                          ELSE IF k = "n" THEN Scaled(v, By(op)) ELSE Shrunk(v, By(op)))
RECURSIVE There(_, _, _)
There(ops, v, k) == IF ops = <<>> THEN v ELSE There(SubSeq(ops, 1, Len(ops) - 1), Do(ops[Len(ops)], v, k), k)
RECURSIVE Back(_, _, _)
Back(ops, v, k) == IF ops = <<>> THEN v ELSE Back(Tail(ops), Undo(ops[1], v, k), k)
Near(a, b) == Same(a, b, FMul("1e-9", FAdd(1000, FAdd(Norm(a), Norm(b)))))
All(list, ops, k) == \A j \in 1..Len(list) : Near(list[j][2], There(ops, list[j][1], k)) /\ Near(list[j][3], Back(ops, list[j][1], k))
Negative(op) == IF op[1] = "scale" THEN Cardinality({k \in 3..5 : FLt(op[k], 0)}) ELSE 0
RECURSIVE Mirrors(_)
Mirrors(ops) == IF ops = <<>> THEN 0 ELSE Negative(ops[1]) + Mirrors(Tail(ops))
Corners(b) == {<<b[x][1], b[y][2], b[z][3]>> : x, y, z \in {1, 2}}
\* the box around these points, and not more
Around(b, ps) == \A k \in 1..3 : /\ \A p \in ps : FLe(FSub(b[1][k], "1e-6"), p[k]) /\ FLe(p[k], FAdd(b[2][k], "1e-6"))
                                 /\ \E p \in ps : FClose(p[k], b[1][k], "1e-9", "1e-6")
                                 /\ \E p \in ps : FClose(p[k], b[2][k], "1e-9", "1e-6")
Transform ==
  /\ Event("transform") /\ UNCHANGED sh
  /\ All(E.pts, E.ops, "p") /\ All(E.vecs, E.ops, "v") /\ All(E.nrms, E.ops, "n")
  /\ E.hands = (Mirrors(E.ops) % 2 = 1)
  /\ IF Around(E.tbox, TLCEval({There(E.ops, p, "p") : p \in Corners(E.box)})) THEN TRUE ELSE FALSE
  /\ IF Around(E.ibox, TLCEval({Back(E.ops, p, "p") : p \in Corners(E.box)})) THEN TRUE ELSE FALSE
  /\ Near(E.tray[1], There(E.ops, E.ray[1], "p")) /\ Near(E.tray[2], There(E.ops, E.ray[2], "v"))
  /\ Near(E.iray[1], Back(E.ops, E.ray[1], "p")) /\ Near(E.iray[2], Back(E.ops, E.ray[2], "v"))
(* ---- shapes ---- *)
Rad(deg) == FDiv(FMul(deg, FPi), 180)
Full == IF sh.kind = "tube" THEN TRUE ELSE FLe(360, sh.phi)
\* a tube is a cylinder along the axis between two points
Frame(s) == IF s.kind # "tube" THEN <<>> ELSE
  CHOOSE f \in { LET n == Dir(Sub(s.b, s.a))
                     x == IF FLt(FAbs(n[1]), "0.6") THEN <<1, 0, 0>> ELSE <<0, 1, 0>>
                     u == Dir(Cross(n, x))
                 IN <<u, Cross(n, u), n>> } : TRUE
Area(s) == IF s.kind = "sphere" THEN FMul(FMul(Rad(s.phi), s.r), FSub(FMin(s.hi, s.r), FMax(s.lo, FNeg(s.r))))
           ELSE IF s.kind = "cylinder" THEN FMul(FMul(Rad(s.phi), s.r), FSub(s.hi, s.lo))
           ELSE IF s.kind = "tube" THEN FMul(FMul(FMul(2, FPi), s.r), Norm(Sub(s.b, s.a)))
           ELSE IF s.kind = "disk" THEN FMul(FDiv(Rad(s.phi), 2), FSub(FMul(s.r, s.r), FMul(s.lo, s.lo)))
           ELSE IF s.kind = "triangle" THEN FDiv(Norm(Cross(Sub(s.b, s.a), Sub(s.c, s.a))), 2) ELSE F(0)
Right(s) ==
  /\ IF s.kind \in {"plane", "source"} THEN TRUE ELSE FClose(s.area, Area(s), "1e-6", "1e-9")
  /\ IF s.kind = "triangle"
     THEN /\ Same(s.n, Dir(Cross(Sub(s.b, s.a), Sub(s.c, s.a))), "1e-6")
          /\ Same(s.centroid, Over(Add(Add(s.a, s.b), s.c), 3), "1e-6")
          /\ \A p \in {s.a, s.b, s.c} : FClose(Norm(Sub(p, s.circum[1])), s.circum[2], "1e-5", "1e-6")
     ELSE TRUE
  /\ IF s.kind = "source" THEN FClose(s.lo, FMul(FPi, FPow(FTan(FDiv(s.phi, 2)), 2)), "1e-6", 0) ELSE TRUE
Shape == Event("shape") /\ Right(E) /\ sh' = [x \in DOMAIN E \cup {"f"} |-> IF x = "f" THEN TLCEval(Frame(E)) ELSE E[x]]
\* points and directions in the coordinates of the shape
In(v, k) == IF sh.kind = "tube" THEN LET q == TLCEval(IF k = "p" THEN Sub(v, sh.a) ELSE v) IN <<Dot(q, sh.f[1]), Dot(q, sh.f[2]), Dot(q, sh.f[3])>> ELSE Back(sh.ops, v, k)
Lo == IF sh.kind = "tube" THEN F(0) ELSE sh.lo
Hi == IF sh.kind = "tube" THEN Norm(Sub(sh.b, sh.a)) ELSE sh.hi
Tol == FMul("1e-6", FAdd(1, sh.r))
\* is x within [a, b]: yes, no or may be
Within(x, a, b, tol) == IF FLt(FAdd(a, tol), x) /\ FLt(FAdd(x, tol), b) THEN "yes" ELSE IF FLt(FAdd(x, tol), a) \/ FLt(FAdd(b, tol), x) THEN "no" ELSE "may"
Both(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "yes" /\ b = "yes" THEN "yes" ELSE "may"
\* the angle of a point, from 0 to 2 pi
Angle(x, y) == LET a == FAtan2(y, x) IN IF FLt(a, 0) THEN FAdd(a, FMul(2, FPi)) ELSE a
PhiIn(x, y) == IF Full THEN "yes" ELSE IF FLt(FAdd(FAbs(x), FAbs(y)), FMul("1e-3", sh.r)) THEN "may"
               ELSE CHOOSE w \in { IF FLt(a, "1e-5") \/ FLt("6.28317", a) THEN "may" ELSE Within(a, -1, Rad(sh.phi), "1e-5") : a \in {Angle(x, y)} } : TRUE
Ahead(t, d) == IF FLt("1e-6", FMul(t, Norm(d))) THEN "yes" ELSE IF FLt(FMul(t, Norm(d)), "-1e-6") THEN "no" ELSE "may"
Cand(t, ok) == [t |-> t, ok |-> ok]
\* the two crossings of a x^2 + b x + c
Roots(a, b, c, ok(_)) ==
  IF FLe(a, "1e-12") THEN IF FLt(FAbs(c), FMul("1e-4", FMul(sh.r, sh.r))) THEN << Cand(F(0), "grazes") >> ELSE <<>>
  ELSE CHOOSE rs \in UNION { { IF FLt(disc, FMul("-1e-6", FMul(4, FMul(a, FMul(sh.r, sh.r))))) THEN <<>>
         ELSE IF FLt(disc, FMul("1e-6", FMul(4, FMul(a, FMul(sh.r, sh.r))))) THEN << Cand(F(0), "grazes") >>
         ELSE << Cand(t1, ok(t1)), Cand(t2, ok(t2)) >> : t1 \in {FDiv(FSub(FNeg(b), q), FMul(2, a))}, t2 \in {FDiv(FAdd(FNeg(b), q), FMul(2, a))} }
         : disc \in {FSub(FMul(b, b), FMul(4, FMul(a, c)))}, q \in {FSqrt(FMax(0, FSub(FMul(b, b), FMul(4, FMul(a, c)))))} } : TRUE
OnBall(o, d, t) == LET p == TLCEval(Along(o, d, t)) IN
   Both(Ahead(t, d), Both(PhiIn(p[1], p[2]), Both(IF FLe(sh.lo, FNeg(sh.r)) THEN "yes" ELSE Within(p[3], sh.lo, FMul(9, sh.r), Tol),
                                                  IF FLe(sh.r, sh.hi) THEN "yes" ELSE Within(p[3], FMul(-9, sh.r), sh.hi, Tol))))
OnTube(o, d, t) == LET p == TLCEval(Along(o, d, t)) IN Both(Ahead(t, d), Both(PhiIn(p[1], p[2]), Within(p[3], Lo, Hi, Tol)))
Flat(v) == <<v[1], v[2]>>
OnDisk(o, d, t) == LET p == TLCEval(Sub(Along(o, d, t), sh.a))  n == sh.b  q == Norm(p) IN
   Both(Ahead(t, d), Both(PhiIn(Dot(p, sh.c), Dot(p, Cross(n, sh.c))), Both(Within(q, -1, sh.r, Tol), IF FLe(sh.lo, 0) THEN "yes" ELSE Within(q, sh.lo, FMul(2, sh.r), Tol))))
OnTriangle(o, d, t) == LET p == TLCEval(Along(o, d, t))  n == TLCEval(Cross(Sub(sh.b, sh.a), Sub(sh.c, sh.a)))
                           side(a, b) == FDiv(Dot(n, Cross(Sub(b, a), Sub(p, a))), Dot(n, n))
                           pos(a, b) == Within(side(a, b), 0, 9, "1e-6")
                           far(a, b) == IF FLt(8, side(a, b)) THEN "yes" ELSE pos(a, b)
                       IN Both(Ahead(t, d), Both(far(sh.a, sh.b), Both(far(sh.b, sh.c), far(sh.c, sh.a))))
ToPlane(o, d, n, a, ok(_)) == IF FLt(FAbs(Dot(n, d)), FMul("1e-7", Norm(d))) THEN << Cand(F(0), "grazes") >>
   ELSE CHOOSE x \in { << Cand(t, ok(t)) >> : t \in {FDiv(Dot(n, Sub(a, o)), Dot(n, d))} } : TRUE
Cands(o, d) ==
  IF sh.kind = "sphere" THEN Roots(Dot(d, d), FMul(2, Dot(o, d)), FSub(Dot(o, o), FMul(sh.r, sh.r)), LAMBDA t : OnBall(o, d, t))
  ELSE IF sh.kind \in {"cylinder", "tube"} THEN Roots(Dot(Flat(d), Flat(d)), FMul(2, Dot(Flat(o), Flat(d))), FSub(Dot(Flat(o), Flat(o)), FMul(sh.r, sh.r)), LAMBDA t : OnTube(o, d, t))
  ELSE IF sh.kind = "disk" THEN ToPlane(o, d, sh.b, sh.a, LAMBDA t : OnDisk(o, d, t))
  ELSE IF sh.kind = "triangle" THEN ToPlane(o, d, Dir(Cross(Sub(sh.b, sh.a), Sub(sh.c, sh.a))), sh.a, LAMBDA t : OnTriangle(o, d, t))
  ELSE ToPlane(o, d, sh.b, sh.a, LAMBDA t : Ahead(t, d))
\* what may be answered: "miss", or the number of a candidate
RECURSIVE Answers(_, _)
Answers(cs, k) == IF k > Len(cs) THEN {0} ELSE IF cs[k].ok = "yes" THEN {k} ELSE IF cs[k].ok = "no" THEN Answers(cs, k + 1) ELSE {k} \cup Answers(cs, k + 1)
Place(p, o, d, c) == LET q == Along(o, d, c.t) IN Same(In(p, "p"), q, FMul("1e-4", FAdd(sh.r, FMul("0.01", Norm(o)))))
IsAt(res, p, o, d, cs) == \E k \in Answers(cs, 1) : IF k = 0 THEN res = "miss" ELSE res = "hit" /\ Place(p, o, d, cs[k])
\* the normal at a point, in the coordinates of the shape, and whether to tell its side
Normal(p) == IF sh.kind = "sphere" THEN Over(p, sh.r) ELSE IF sh.kind \in {"cylinder", "tube"} THEN <<FDiv(p[1], sh.r), FDiv(p[2], sh.r), F(0)>>
             ELSE IF sh.kind = "disk" THEN sh.b ELSE Dir(Cross(Sub(sh.b, sh.a), Sub(sh.c, sh.a)))
Out(v) == IF sh.kind = "tube" THEN Add(Add(Times(sh.f[1], v[1]), Times(sh.f[2], v[2])), Times(sh.f[3], v[3])) ELSE There(sh.ops, v, "n")
Told == LET p == TLCEval(In(E.p, "p"))  n == TLCEval(Dir(Out(Normal(p))))  m == TLCEval(Dir(E.n)) IN
  /\ FLt(Dot(m, E.d), "1e-9")
  /\ IF Same(m, n, "1e-3") THEN TRUE ELSE Same(m, Times(n, -1), "1e-3")
  /\ FLe(FAbs(Dot(m, E.du)), FMul("1e-3", FAdd("1e-9", Norm(E.du)))) /\ FLe(FAbs(Dot(m, E.dv)), FMul("1e-3", FAdd("1e-9", Norm(E.dv))))
  /\ IF sh.kind \in {"cylinder", "tube"} THEN E.side \in {"front", "back"}
     ELSE IF FLt("1e-4", Dot(n, E.d)) THEN E.side = "back" ELSE IF FLt(Dot(n, E.d), "-1e-4") THEN E.side = "front" ELSE TRUE
InBox == IF sh.box = <<>> THEN TRUE ELSE \A k \in 1..3 : FLe(FSub(sh.box[1][k], "1e-4"), E.p[k]) /\ FLe(E.p[k], FAdd(sh.box[2][k], "1e-4"))
\* the density of directions towards a light, sampled on it
Cone(c) == FDiv(1, FMul(FMul(2, FPi), FSub(1, c)))
Density == IF E.pdf = "none" THEN TRUE
           ELSE IF sh.kind = "triangle" THEN
             LET cos == FAbs(Dot(Dir(E.n), E.d))  s == Sub(E.p, E.o) IN IF FLt(cos, "1e-4") THEN TRUE ELSE FClose(E.pdf, FDiv(Dot(s, s), FMul(cos, Area(sh))), "1e-4", 0)
           ELSE IF sh.kind = "sphere" /\ Len(sh.ops) = 0 /\ Full THEN LET s == Dot(E.o, E.o) IN IF FLt(FMul(sh.r, sh.r), FMul("0.99", s)) THEN FClose(E.pdf, Cone(FSqrt(FSub(1, FDiv(FMul(sh.r, sh.r), s)))), "1e-3", 0) ELSE TRUE
           ELSE IF sh.kind = "source" THEN FClose(E.pdf, Cone(FCos(FDiv(sh.phi, 2))), "1e-6", 0) ELSE TRUE
Source == LET c == Dot(E.d, sh.a)  m == FCos(FDiv(sh.phi, 2)) IN
          IF FClose(c, m, 0, "1e-9") THEN TRUE ELSE /\ E.res = (IF FLt(m, c) THEN "hit" ELSE "miss") /\ E.simple = E.res
                                                    /\ IF E.res = "hit" THEN Density ELSE TRUE
Hit ==
  /\ Event("hit") /\ UNCHANGED sh
  /\ E.res /= "panic"
  /\ IF sh.kind = "source" THEN Source
     ELSE \E o \in {TLCEval(In(E.o, "p"))} : \E d \in {TLCEval(In(E.d, "v"))} : \E cs \in {TLCEval(Cands(o, d))} :
          IF \E k \in 1..Len(cs) : cs[k].ok = "grazes" THEN TRUE
          ELSE /\ IsAt(E.simple, E.sp, o, d, cs)
               /\ IF sh.kind = "plane" THEN TRUE
                  ELSE /\ IsAt(E.res, E.p, o, d, cs)
                       /\ IF E.res = "hit" THEN Told /\ InBox /\ Density ELSE TRUE
Done == i = Len(Trace) /\ UNCHANGED <<i, sh>>
Next == Transform \/ Shape \/ Hit \/ Done
Spec == Init /\ [][Next]_<<i, sh>>
=============================================================================
