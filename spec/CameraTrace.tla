----------------------------- MODULE CameraTrace -----------------------------
(* Cameras and the images the code renders through them, against Camera *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, cam, base
vars == <<i, cam, base>>
C == INSTANCE Camera WITH Views <- {}, view <- 0, seen <- 0
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Init == i = 0 /\ cam = [w |-> 0, h |-> 0] /\ base = <<>>
Near(a, b, tol) == \A j \in 1..3 : FClose(a[j], b[j], 0, tol)
New == Event("cam") /\ E.res = "ok" /\ cam' = E /\ base' = C!Basis(E)
Same == UNCHANGED <<cam, base>>
\* the ray of a pixel starts where the camera is and goes through the centre of it
Own == Event("own") /\ Same /\ E.res = "ok" /\ FEq(E.wgt, 1) /\ (\A j \in 1..3 : FClose(E.o[j], cam.at[j], "1e-12", "1e-12")) /\ Near(E.d, C!RayOf(cam, base, E.x, E.y), "1e-9")
\* a direction and the pixel it goes through; on the line between two of them it may be either
Eps == "1e-6"
Cell(c, n, k) == /\ FLe(FSub(k, Eps), c) /\ FLe(c, FAdd(k + 1, Eps))
Out(c, n) == FLe(c, Eps) \/ FLe(FSub(n, Eps), c)
Clear(c, n) == FLt(c, FNeg(Eps)) \/ FLt(FAdd(n, Eps), c)
Find == /\ Event("find") /\ Same /\ E.res = "ok"
        /\ LET front == C!InFront(base, E.d)
               c == IF front THEN C!Column(cam, base, E.d) ELSE F(-9)  l == IF front THEN C!Line(cam, base, E.d) ELSE F(-9) IN
           IF FEq(E.wgt, 0) THEN ~front \/ Out(c, cam.w) \/ Out(l, cam.h)
           ELSE /\ FEq(E.wgt, 1) /\ front /\ ~Clear(c, cam.w) /\ ~Clear(l, cam.h)
                /\ 0 <= E.x /\ E.x < cam.w /\ 0 <= E.y /\ E.y < cam.h
                /\ Cell(c, cam.w, E.x) /\ Cell(l, cam.h, E.y)
Index == Event("index") /\ Same /\ E.res = "ok" /\ E.k = E.y * cam.w + E.x
Random == Event("random") /\ Same /\ E.res = "ok" /\ \A k \in 1..Len(E.at) : E.at[k][1] \in 0..cam.w - 1 /\ E.at[k][2] \in 0..cam.h - 1
\* a triangle in the image
Minus(a, b) == [j \in 1..3 |-> FSub(a[j], b[j])]
Times(a, k) == C!Times(a, k)
Det(a, b, c) == FDot(a, C!Cross(b, c))
Hit(t, d) ==    \* "hit", "miss" or "edge"
  LET a == Minus(t[1], cam.at)  b == Minus(t[2], cam.at)  c == Minus(t[3], cam.at)
      s == IF FLt(Det(a, b, c), 0) THEN F(-1) ELSE F(1)
      k == <<FMul(s, Det(d, b, c)), FMul(s, Det(a, d, c)), FMul(s, Det(a, b, d))>>
      m == FMul("1e-6", FAdd(FAdd(FAbs(k[1]), FAbs(k[2])), FAbs(k[3]))) IN
  IF \A j \in 1..3 : FLt(m, k[j]) THEN "hit" ELSE IF \E j \in 1..3 : FLt(k[j], FNeg(m)) THEN "miss" ELSE "edge"
Mirrored(t, d) == LET n == C!Unit(C!Cross(Minus(t[2], t[1]), Minus(t[3], t[1]))) IN Minus(d, Times(n, FMul(2, FDot(n, d))))
SkyTo(d) == LET f == FAdd(E.sky[1], FDot(SubSeq(E.sky, 2, 4), d)) IN [j \in 1..3 |-> FMul(E.skycol[j], f)]
Black == <<F(0), F(0), F(0)>>
Thing(d) == IF E.thing = "light" THEN E.col ELSE IF E.thing = "matt" \/ E.depth = 0 THEN Black ELSE SkyTo(Mirrored(E.tri, d))
Like(a, b) == \A j \in 1..3 : FClose(a[j], b[j], "1e-6", "1e-9")
PixelOk(p) == LET d == TLCEval(C!RayOf(cam, base, p[1], p[2]))  h == TLCEval(IF E.thing = "none" THEN "miss" ELSE Hit(E.tri, d)) IN
  IF h = "edge" \/ (h = "hit" /\ E.thing = "matt" /\ E.depth > 0) THEN TRUE ELSE Like(p[3], IF h = "miss" THEN SkyTo(d) ELSE Thing(d))
Image == /\ Event("image") /\ Same /\ E.res = "ok" /\ E.w = cam.w /\ E.h = cam.h /\ E.n = cam.w * cam.h
         /\ \A k \in 1..Len(E.px) : PixelOk(E.px[k])
Done == i = Len(Trace) /\ UNCHANGED vars
Next == New \/ Own \/ Find \/ Index \/ Random \/ Image \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
