----------------------------- MODULE SceneTrace -----------------------------
(* What the ray caster does, against Bvh: whatever the tree, a ray finds what it hits first, as looking at every triangle tells. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, tris, mats, norms, geo, ball
vars == <<i, tris, mats, norms, geo, ball>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0 /\ tris = <<>> /\ mats = <<>> /\ norms = <<>> /\ geo = <<>> /\ ball = <<>>
(* ---- vectors ---- *)
Sub(a, b) == << FSub(a[1], b[1]), FSub(a[2], b[2]), FSub(a[3], b[3]) >>
Cross(a, b) == << FSub(FMul(a[2], b[3]), FMul(a[3], b[2])), FSub(FMul(a[3], b[1]), FMul(a[1], b[3])), FSub(FMul(a[1], b[2]), FMul(a[2], b[1])) >>
Dot(a, b) == FDot(a, b)
Norm(a) == FSqrt(Dot(a, a))
Along(o, d, t) == << FAdd(o[1], FMul(d[1], t)), FAdd(o[2], FMul(d[2], t)), FAdd(o[3], FMul(d[3], t)) >>
Over(a, s) == << FDiv(a[1], s), FDiv(a[2], s), FDiv(a[3], s) >>
Same(a, b, tol) == FLe(Norm(Sub(a, b)), tol)
Perp(a, b) == FLe(FAbs(Dot(a, b)), "1e-6")
Unit(a) == FClose(Norm(a), 1, "1e-6", 0)
Corner(t, k) == << t[3 * k + 1], t[3 * k + 2], t[3 * k + 3] >>
\* what it takes to intersect a triangle
Geo(t) == CHOOSE g \in { LET e1 == TLCEval(Sub(Corner(t, 1), Corner(t, 0)))  e2 == TLCEval(Sub(Corner(t, 2), Corner(t, 0)))
                             n == TLCEval(Cross(e1, e2))
                         IN [a |-> <<F(t[1]), F(t[2]), F(t[3])>>, e1 |-> e1, e2 |-> e2, n |-> TLCEval(Over(n, Norm(n))), l |-> FMul(Norm(e1), Norm(e2)), r |-> FAdd(Norm(e1), Norm(e2))] } : TRUE
Geos(ts) == TLCEval([k \in 1..Len(ts) |-> TLCEval(Geo(ts[k]))])
(* ---- a ray and a triangle ---- *)
Sure == "1e-5"
Near == "2e-3"      \* closer than this a surface may or may not be seen: it may be the one the ray leaves
Got(c, t) == [c |-> c, t |-> t]
\* one of: it hits, it misses, or too close to the edge to tell
Meets(o, d, g) ==
  CHOOSE m \in UNION { {
      IF FLt(FAbs(det), FMul(Sure, g.l))
      THEN \* almost parallel, or a splinter: it cannot get to the plane while it is near the triangle
           IF FLt(FMul(FAbs(Dot(d, g.n)), FAdd(FAdd(Norm(s), g.r), "1e-9")), FAbs(Dot(s, g.n))) THEN Got("miss", 0) ELSE Got("may", -1)
      ELSE LET u == FDiv(Dot(s, h), det)  q == Cross(s, g.e1)  v == FDiv(Dot(d, q), det)  t == FDiv(Dot(g.e2, q), det)  w == FSub(FSub(1, u), v) IN
           IF FLt(u, "-1e-5") \/ FLt(v, "-1e-5") \/ FLt(w, "-1e-5") \/ FLt(t, "-1e-6") THEN Got("miss", 0)
           ELSE IF FLt(Sure, u) /\ FLt(Sure, v) /\ FLt(Sure, w) /\ FLt(Near, t) THEN Got("hit", F(t)) ELSE Got("may", F(t))
      : det \in {Dot(g.e1, h)} } : h \in {Cross(d, g.e2)}, s \in {Sub(o, g.a)} } : TRUE
Keep == UNCHANGED <<tris, mats, norms, geo, ball>>
(* ---- a scene of triangles, and the tree ---- *)
Right(ns, ts, gs) == \A k \in 1..Len(ts) : Len(ns[k]) = 3 /\ \A j \in 1..3 : Same(ns[k][j], gs[k].n, "1e-6")
Scene ==
  /\ Event("scene")
  /\ tris' = E.tris /\ mats' = E.mats /\ norms' = E.normals /\ ball' = <<>>
  /\ geo' = Geos(E.tris)
  /\ E.held = E.tris /\ E.heldmats = E.mats
  /\ Len(E.normals) = Len(E.tris)
  /\ Right(E.normals, E.tris, geo')
  /\ E.lights = E.lit /\ E.distant = 0
\* the order changes; nothing is lost, and materials and normals stay with their triangle
Built ==
  /\ Event("built")
  /\ LET n == Len(tris) IN
     /\ Len(E.map) = n /\ Len(E.tris) = n /\ Len(E.mats) = n /\ Len(E.normals) = n
     /\ {E.map[k] : k \in 1..n} = 0..(n - 1)
     /\ \A k \in 1..n : E.tris[k] = tris[E.map[k] + 1] /\ E.mats[k] = mats[E.map[k] + 1] /\ E.normals[k] = norms[E.map[k] + 1]
     /\ tris' = E.tris /\ mats' = E.mats /\ norms' = E.normals
     /\ geo' = TLCEval([k \in 1..n |-> geo[E.map[k] + 1]])
  /\ UNCHANGED ball
\* what is told about the point a ray hits
Told(n, tol) ==
  /\ Unit(E.n) /\ Unit(E.e1) /\ Unit(E.e2)
  /\ Perp(E.e1, E.e2) /\ Perp(E.n, E.e1) /\ Perp(E.n, E.e2)
  /\ Same(E.wo, <<FNeg(E.d[1]), FNeg(E.d[2]), FNeg(E.d[3])>>, "1e-9")
  /\ FLt(Dot(E.n, E.d), 0)
  /\ IF FLt(Dot(n, E.d), 0) THEN E.side = "front" /\ Same(E.n, n, tol) ELSE E.side = "back" /\ Same(E.n, <<FNeg(n[1]), FNeg(n[2]), FNeg(n[3])>>, tol)
Slack(t) == FMul("1e-9", FAdd(1, t))
First(ms) ==
  IF E.k = 0 THEN \A k \in 1..Len(ms) : ms[k].c /= "hit"
  ELSE /\ E.k \in 1..Len(ms)
       /\ ms[E.k].c /= "miss"
       /\ LET t == Norm(Sub(E.p, E.o)) IN
          /\ Same(E.p, Along(E.o, E.d, t), FMul("1e-6", FAdd(1, t)))
          /\ IF ms[E.k].c = "hit" THEN FClose(ms[E.k].t, t, "1e-6", "1e-6") ELSE TRUE
          /\ \A k \in 1..Len(ms) : IF ms[k].c = "hit" THEN FLe(t, FAdd(ms[k].t, FMul("1e-6", FAdd(1, t)))) ELSE TRUE
       /\ IF ms[E.k].c = "hit" THEN Told(geo[E.k].n, "1e-6") ELSE TRUE
\* is the way free for a distance d?  A surface within a couple of millimetres of either end may or may not count
Blocked(ms, d) == \E k \in 1..Len(ms) : IF ms[k].c = "hit" THEN FLt(FAdd(FMul(ms[k].t, ms[k].t), "2e-4"), FMul(d, d)) ELSE FALSE
Clear(ms, d) == \A k \in 1..Len(ms) : IF ms[k].c = "miss" THEN TRUE ELSE FLt(FMul(d, "1.000001"), ms[k].t)
Close(ms) == \E k \in 1..Len(ms) : IF ms[k].c = "miss" THEN FALSE ELSE FLt(ms[k].t, Near)
Free(ms) == \A j \in 1..Len(E.free) :
   IF Close(ms) THEN E.free[j][2] \in {"yes", "no"}
   ELSE IF Blocked(ms, E.free[j][1]) THEN E.free[j][2] = "no"
   ELSE IF Clear(ms, E.free[j][1]) THEN E.free[j][2] = "yes"
   ELSE E.free[j][2] \in {"yes", "no"}
Cast == /\ Event("cast") /\ Keep
        /\ \E ms \in {TLCEval([k \in 1..Len(geo) |-> Meets(E.o, E.d, geo[k])])} : First(ms) /\ Free(ms)
(* ---- a sphere ---- *)
Sphere == /\ Event("sphere")
          /\ ball' = <<E.c, E.r>> /\ tris' = <<>> /\ mats' = <<>> /\ norms' = <<>> /\ geo' = <<>>
          /\ E.n >= 1000 /\ E.outward = E.n /\ E.open = 0
          /\ FLt(E.off, "1e-9") /\ FLt(E.nrm, "1e-9")
          /\ FClose(E.area, FMul(FMul(4, FPi), FMul(E.r, E.r)), "3e-3", 0)
Round ==
  /\ Event("round") /\ Keep
  /\ LET c == ball[1]  r == ball[2]  s == Sub(E.o, c)  b == Dot(s, E.d)
         away == FSqrt(FMax(0, FSub(Dot(s, s), FMul(b, b))))
         half == FSqrt(FMax(0, FSub(FMul(r, r), FMul(away, away))))
         t1 == FSub(FNeg(b), half)  t2 == FAdd(FNeg(b), half)
         t == IF FLt(0, t1) THEN t1 ELSE t2
     IN IF FLt(FMul("1.01", r), away) THEN E.k = 0
        ELSE IF FLt(FMul("0.97", r), away) THEN E.k >= 0
        ELSE /\ E.k > 0
             /\ Same(E.p, Along(E.o, E.d, t), FMul("5e-3", r))
             /\ Told(Over(Sub(Along(E.o, E.d, t), c), r), "5e-2")
(* ---- a model ---- *)
Areas == << 6, 8, 3, "8.82e-6", 12, 14 >>
Glass(tau) == FDiv(FSub(FSqrt(FAdd("0.8402528435", FMul("0.0072522239", FMul(tau, tau)))), "0.9166530661"), FMul("0.0036261119", tau))
Pct(x) == FDiv(x, 100)
Gray(c, x) == Len(c) > 0 /\ \A k \in 1..Len(c) : FClose(c[k], x, "1e-4", "1e-6")
\* a side of a layer, with the absorptance of that side
Solar == E.wave = "solar"
\* in daylight what is given is the transmissivity of the glass; for the sun, its transmittance
IsGlass(m, l) == m[1] = "glass" /\ Gray(m[2], IF Solar THEN Glass(Pct(l[3])) ELSE Pct(l[3])) /\ FClose(m[3], "1.52", "1e-9", 0)
IsOpaque(m, rho) == m[1] = "plastic" /\ Gray(m[2], rho) /\ FEq(m[3], 0) /\ FEq(m[4], 0)
\* the reflectance of a side; when nothing is given, the usual one
Usual(m) == IsOpaque(m, "0.3") \/ (~Solar /\ IsOpaque(m, "0.7"))
Given(m, a) == IsOpaque(m, IF Solar THEN FSub(1, Pct(a)) ELSE Pct(a))
Side(m, l, a, other) == IF l[3] > 0 THEN IsGlass(m, l) ELSE IF a < 0 THEN Usual(m) \/ (other >= 0 /\ Given(m, other)) ELSE Given(m, a)
FrontOk(m, l) == Side(m, l, IF Solar THEN l[1] ELSE l[4], -1)
BackOk(m, l) == Side(m, l, IF Solar THEN l[2] ELSE l[5], IF Solar THEN l[1] ELSE l[4])
Gas(l) == l[1] = -9
Shows(x, wall) == IF wall THEN FLe("1e-5", Areas[x.shape + 1]) ELSE x.cat /= "Opening"
Layers(x) == E.cons[x.cons + 1]
Bad(x) == Gas(Head(Layers(x))) \/ Gas(Layers(x)[Len(Layers(x))])
Fails == \/ \E k \in 1..Len(E.walls) : Shows(E.walls[k], TRUE) /\ Bad(E.walls[k])
         \/ \E k \in 1..Len(E.windows) : Shows(E.windows[k], FALSE) /\ Bad(E.windows[k])
\* the triangles of an element: they make up its area, at its vertices, facing like it, with its materials
Covered(kind, k, x, p, shown) ==
  LET js == {j \in 1..Len(E.els) : E.els[j].kind = kind /\ E.els[j].i = k}
      seq == SelectSeq([j \in 1..Len(E.els) |-> j], LAMBDA j : j \in js)
      vs == {p.vs[q] : q \in 1..Len(p.vs)}
      ls == Layers(x)
  IN IF ~shown THEN js = {}
     ELSE /\ FClose(FSum([q \in 1..Len(seq) |-> E.els[seq[q]].area]), Areas[x.shape + 1], "1e-6", 0)
          /\ FClose(p.area, Areas[x.shape + 1], "1e-6", 0)
          /\ \A j \in js : /\ Same(E.els[j].n, p.n, "1e-6")
                           /\ \A q \in 1..3 : E.els[j].vs[q] \in vs
                           /\ FrontOk(E.els[j].front, ls[1]) /\ BackOk(E.els[j].back, ls[Len(ls)])
Model ==
  /\ Event("model") /\ Keep
  /\ IF Fails THEN E.res = "err"
     ELSE /\ E.res = "ok"
          /\ \A k \in 1..5 : E.counts[k] = Len(E.els)
          /\ \A j \in 1..Len(E.els) : E.els[j].i \in 1..Len(IF E.els[j].kind = "wall" THEN E.walls ELSE E.windows)
          /\ \A k \in 1..Len(E.walls) : Covered("wall", k, E.walls[k], E.wallp[k], Shows(E.walls[k], TRUE))
          /\ \A k \in 1..Len(E.windows) : Covered("window", k, E.windows[k], E.windowp[k], Shows(E.windows[k], FALSE))
Done == i = Len(Trace) /\ UNCHANGED vars
Next == Scene \/ Built \/ Cast \/ Sphere \/ Round \/ Model \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
