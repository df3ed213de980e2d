--------------------------- MODULE LightPathsTrace ---------------------------
(* Light that the code follows, against LightPaths *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
vars == <<i>>
L == INSTANCE LightPaths WITH MaxLen <- 0, Depths <- {}, Rhos <- {}, path <- <<>>, depth <- 0, specular <- FALSE, limit <- 0, mass <- 0, weight <- <<>>, counted <- <<>>, ended <- ""
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1 /\ E.res = "ok"
Init == i = 0
Black == <<F(0), F(0), F(0)>>
Like(a, b, tol) == \A j \in 1..3 : FClose(a[j], b[j], tol, "1e-9")
\* nothing is lost, nor gained, among surfaces that absorb nothing under a sky of one
Furnace == Event("furnace") /\ Len(E.vals) = E.n /\ \A k \in 1..Len(E.vals) : Like(E.vals[k], L!One, "1e-9")
\* what a surface receives of all the patches of such a sky is pi, in equal parts for each of the rays sent
Patches == /\ Event("patches") /\ E.rows = E.want /\ E.bins = 144 * E.mf * E.mf + 2
           /\ \A k \in 1..Len(E.sums) : Like(E.sums[k], <<FPi, FPi, FPi>>, "1e-9")
           /\ \A k \in 1..Len(E.parts) : LET x == FDiv(FMul(E.parts[k], E.n), FPi) IN FClose(x, FRound(x), "1e-9", "1e-9")
(* ---- one surface: each way out, with what it brings and how often ---- *)
SkyTo(d) == LET s == FAdd(E.sky[1], FDot(SubSeq(E.sky, 2, 4), d)) IN [j \in 1..3 |-> FMul(E.skycol[j], s)]
Cap(x) == FMin(1, x)
Way(w, p, light) == LET g == Cap(L!Radiance(w)) IN [v |-> IF FEq(g, 0) THEN Black ELSE [j \in 1..3 |-> FDiv(FMul(w[j], light[j]), g)], p |-> FMul(p, g)]
Ways ==
  IF E.depth = 0 THEN <<>>
  ELSE IF E.mat = "glass"
  THEN LET c == (FAbs(L!Dot(E.n, E.d)))  q == (L!Pane(c, E.index, [j \in 1..3 |-> FMax(E.c[j], "1e-15")]))
           r == (L!Radiance(q.r))  t == (L!Radiance(q.t))  pr == FDiv(r, FAdd(r, t))  pt == FDiv(t, FAdd(r, t)) IN
       <<Way(L!Times(q.r, FDiv(1, pr)), pr, SkyTo(L!Mirrored(E.d, E.n))), Way(L!Times(q.t, FDiv(1, pt)), pt, SkyTo(E.d))>>
  ELSE <<Way(E.c, F(1), SkyTo(IF E.mat = "mirror" THEN L!Mirrored(E.d, E.n) ELSE E.d))>>
Often(k, n, p) == LET m == FMul(n, p) IN FLe(FAbs(FSub(k, m)), FAdd(3, FMul(6, FSqrt(FMul(m, FMax(0, FSub(1, p)))))))
Match(v, x) == Like(v, x, "1e-6")
BounceOk ==
  LET ws == (Ways)  n == Len(E.vals)
      Which(v) == {k \in 1..Len(ws) : Match(v, ws[k].v)}
      at == ([j \in 1..n |-> Which(E.vals[j])])
      lost == {j \in 1..n : at[j] = {}} IN
  /\ \A j \in lost : Like(E.vals[j], Black, 0)
  \* ways that bring the same cannot be told apart
  /\ IF Len(ws) = 2 /\ Match(ws[1].v, ws[2].v) THEN TRUE
     ELSE \A k \in 1..Len(ws) : Often(Cardinality({j \in 1..n : k \in at[j]}), n, ws[k].p)
(* ---- a block of clear stuff: around it, and through it after some times inside ---- *)
BlockWays ==
  LET c1 == FAbs(L!Dot(E.n, E.d))  r == L!Reflects(c1, 1, E.index)
      b0 == L!Times(E.c, FSqrt(FDiv(1, E.index)))  g0 == Cap(L!Radiance(b0))  b1 == [j \in 1..3 |-> FDiv(FMul(FMul(b0[j], E.c[j]), FSqrt(E.index)), g0)]
      outs == L!Outs(E.faces, E.index, E.p, L!Refracted(E.d, E.n, 1, E.index), FMul(FSub(1, r), g0), E.depth - 1) IN
  IF E.depth = 0 THEN <<>>
  ELSE <<Way(L!One, r, SkyTo(L!Mirrored(E.d, E.n))) @@ [clear |-> TRUE]>> \o [k \in 1..Len(outs) |-> Way(b1, outs[k].share, SkyTo(outs[k].d)) @@ [clear |-> outs[k].clear]]
Apart(ws, k) == \A j \in 1..Len(ws) : j = k \/ \E q \in 1..3 : ~FClose(ws[j].v[q], ws[k].v[q], "1e-3", "1e-9")
BlockOk ==
  \E ws \in {TLCEval(BlockWays)} : \E at \in {TLCEval([j \in 1..Len(E.vals) |-> {k \in 1..Len(ws) : Like(E.vals[j], ws[k].v, "1e-5")}])} :
  IF \E k \in 1..Len(ws) : ~ws[k].clear THEN TRUE
  ELSE
  /\ \A j \in 1..Len(E.vals) : at[j] # {} \/ Like(E.vals[j], Black, 0)
  /\ \A k \in 1..Len(ws) : IF Apart(ws, k) THEN Often(Cardinality({j \in 1..Len(E.vals) : k \in at[j]}), Len(E.vals), ws[k].p) ELSE TRUE
Block == Event("block") /\ IF BlockOk THEN TRUE ELSE FALSE
Bounce == Event("bounce") /\ IF BounceOk THEN TRUE ELSE FALSE
(* ---- into a dielectric, or out of it ---- *)
CrossOk ==
  LET c1 == (FAbs(L!Dot(E.n, E.d)))  q == (L!Cos2(c1, E.here, E.there))  r == (L!Reflects(c1, E.here, E.there)) IN
  IF FLt(FAbs(q), "1e-4") THEN TRUE
  ELSE /\ Often(E.refl, E.many, r)
       /\ \A k \in 1..Len(E.list) : LET x == E.list[k] IN
            /\ x.spec
            /\ IF x.refl
               THEN /\ Like(x.wi, L!Mirrored(E.d, E.n), "1e-6") /\ Like(x.w, L!One, "1e-6") /\ FNear(x.after, E.here) /\ FLt(0, x.off) /\ FClose(x.pdf, r, "1e-6", "1e-9")
               ELSE /\ Like(x.wi, L!Refracted(E.d, E.n, E.here, E.there), "1e-6") /\ FNear(x.after, E.there) /\ FLt(x.off, 0) /\ FClose(x.pdf, FSub(1, r), "1e-6", "1e-9")
                    \* what is gained on the way in is lost on the way out
                    /\ \A j \in 1..3 : FClose(FMul(x.w[j], x.back[j]), L!Sq(E.c[j]), "1e-6", "1e-12")
DoCross == Event("cross") /\ IF CrossOk THEN TRUE ELSE FALSE
(* ---- lights ---- *)
Det(a, b, c) == FDot(a, L!Cross(b, c))
Hit(t, d, slack) ==    \* [r, t]: "hit", "miss" or "edge", and how far
  LET a == L!Minus(t[1], E.p)  b == L!Minus(t[2], E.p)  c == L!Minus(t[3], E.p)  v == (Det(a, b, c))
      s == IF FLt(v, 0) THEN F(-1) ELSE F(1)
      k == (<<FMul(s, Det(d, b, c)), FMul(s, Det(a, d, c)), FMul(s, Det(a, b, d))>>)
      sum == (FAdd(FAdd(k[1], k[2]), k[3]))
      m == FMul(slack, FAdd(FAdd(FAbs(k[1]), FAbs(k[2])), FAbs(k[3]))) IN
  IF \A j \in 1..3 : FLt(m, k[j]) THEN [r |-> "hit", t |-> FDiv(FAbs(v), sum)] ELSE IF \E j \in 1..3 : FLt(k[j], FNeg(m)) THEN [r |-> "miss", t |-> F(0)] ELSE [r |-> "edge", t |-> F(0)]
Blocks(d) == IF E.block = <<>> THEN [r |-> "miss", t |-> F(0)] ELSE Hit(E.block, d, "0.08")
Sun(l) == l.kind = "sun"
Omega(l) == IF Sun(l) THEN L!Cone(l.half) ELSE IF l.kind = "sphere" THEN L!Cone(FAsin(l.half)) ELSE FDiv(FMul(l.area, l.face), FMul(l.far, l.far))
Hidden(l, b) == b.r = "hit" /\ (Sun(l) \/ FLt(b.t, l.far))
\* what one light gives: how much, and how far from it is still it
Direct(l) == LET c == (FMax(0, L!Dot(E.n, l.d)))  b == (Blocks(l.d))  o == (Omega(l))  nl == Len(E.lights)
                 v == (L!Sends(E.c, c, FMul(o, nl), l.l)) IN
             [v |-> IF Hidden(l, b) \/ FEq(c, 0) THEN Black ELSE v,
              tol |-> IF Hidden(l, b) \/ FEq(c, 0) THEN Black
                      ELSE L!Plus(L!Times(v, IF Sun(l) THEN F("0.002") ELSE IF E.shadow = 1 THEN F("0.02") ELSE F("0.06")),
                                  L!Times(L!Sends(E.c, 1, FMul(o, nl), l.l), FAdd(IF E.shadow = 1 THEN F("1e-5") ELSE F(l.half), IF Sun(l) THEN F(0) ELSE F("0.002"))))]
Within(a, b, tol) == \A j \in 1..3 : FLe(FAbs(FSub(a[j], b[j])), FAdd(FAdd("1e-9", FMul("1e-6", FAbs(b[j]))), tol[j]))
Grey(x) == <<F(x), F(x), F(x)>>
MattOk ==
  LET ds == ([k \in 1..Len(E.lights) |-> Direct(E.lights[k])])
      g == (Cap(L!Radiance(E.c)))
      more == IF E.depth = 0 \/ FEq(g, 0) THEN Black ELSE L!Times(E.c, FDiv(E.sky, g))
      Is(v, k) == Within(v, ds[k].v, ds[k].tol) \/ Within(v, L!Plus(ds[k].v, more), ds[k].tol) IN
  /\ \A j \in 1..Len(E.vals) : \E k \in 1..Len(ds) : Is(E.vals[j], k)
  /\ \A k \in 1..Len(ds) : \E j \in 1..Len(E.vals) : Is(E.vals[j], k)
Angle(a, b) == LET c == L!Cross(a, b) IN FAtan2(FSqrt(FDot(c, c)), FDot(a, b))
Faces(l, m) == LET x == Angle(l.d, m)  in == IF l.kind = "triangle" THEN F("0.2") ELSE F("0.8") IN
               IF FLt(x, FMul(l.half, in)) THEN "yes" ELSE IF FLt(FMul(l.half, 2), x) THEN "no" ELSE "edge"
MirrorOk ==
  LET m == (L!Mirrored(L!Times(E.e, -1), E.n))  b == (Blocks(m))
      fs == ([k \in 1..Len(E.lights) |-> Faces(E.lights[k], m)])
      near == {k \in 1..Len(E.lights) : fs[k] = "yes" /\ ~Sun(E.lights[k])}
      suns == {k \in 1..Len(E.lights) : fs[k] = "yes" /\ Sun(E.lights[k])}
      RECURSIVE Total(_)
      Total(k) == IF k = 0 THEN Grey(E.sky) ELSE IF k \in suns THEN L!Plus(Total(k - 1), E.lights[k].l) ELSE Total(k - 1)
      x == IF b.r = "hit" /\ \A k \in near : FLt(b.t, E.lights[k].far) THEN Black
           ELSE IF near # {} THEN E.lights[CHOOSE k \in near : TRUE].l ELSE Total(Len(E.lights))
      g == Cap(L!Radiance(E.c))
      v == (IF E.depth = 0 THEN Black ELSE [j \in 1..3 |-> FDiv(FMul(E.c[j], x[j]), g)]) IN
  IF b.r = "edge" \/ \E k \in 1..Len(fs) : fs[k] = "edge" THEN TRUE
  ELSE /\ \A j \in 1..Len(E.vals) : Like(E.vals[j], v, "1e-6") \/ (FLt(g, "0.999999") /\ Like(E.vals[j], Black, 0))
       /\ \E j \in 1..Len(E.vals) : Like(E.vals[j], v, "1e-6") \/ FLt(g, "0.3")
Clear == Blocks(E.e).r = "miss" /\ \A k \in 1..Len(E.lights) : Blocks(E.lights[k].d).r # "edge"
Lit == Event("lit") /\ IF (IF Clear THEN (IF E.mat = "mirror" THEN MirrorOk ELSE MattOk) ELSE TRUE) THEN TRUE ELSE FALSE
Done == i = Len(Trace) /\ UNCHANGED vars
Next == Block \/ Furnace \/ Patches \/ Bounce \/ DoCross \/ Lit \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
