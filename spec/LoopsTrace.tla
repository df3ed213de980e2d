------------------------------ MODULE LoopsTrace ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
L == INSTANCE Loops WITH Grid <- {}, MaxLen <- 0, Outers <- {}, Holes <- {}, MaxHoles <- 0, verts <- <<>>, closed <- FALSE, planar <- FALSE, clean <- TRUE, answer <- "", inner <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, vs, cl, pl, hs, fit
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Keep == UNCHANGED <<vs, cl, pl, hs, fit>>
Init == i = 0 /\ vs = <<>> /\ cl = FALSE /\ pl = FALSE /\ hs = <<>> /\ fit = TRUE
Near(a, b) == FClose(a, b, "1e-7", "1e-9")
Start == Event("start") /\ vs' = <<>> /\ cl' = FALSE /\ pl' = FALSE /\ hs' = <<>> /\ fit' = TRUE
Push ==
  /\ Event("push")
  /\ LET a == L!PushAnswer(vs, cl, pl, E.p, E.off) IN
     IF a = "ok"
     THEN /\ E.res = "ok"
          /\ vs' = L!Pushed(vs, E.p, E.merge) /\ E.verts = vs'
          /\ pl' = (pl \/ L!Fixes(vs'))
     ELSE /\ IF a = "same" THEN TRUE ELSE E.res = "err"
          /\ E.verts = vs /\ UNCHANGED <<vs, pl>>
  /\ E.closed = cl
  /\ UNCHANGED <<cl, hs, fit>>
(* what is said about a closed loop *)
Perimeter(q) == FSum([k \in 1..Len(q) |-> FSqrt(L!D2(q[k], L!Nxt(q, k)))])
Mean(q, c) == FDiv(FSum([k \in 1..Len(q) |-> F(q[k][c])]), Len(q))
Measured(m, q) == /\ m.closed /\ m.boxed
                  /\ Near(m.area, FDiv(L!Area2(q), 2))
                  /\ Near(m.perimeter, Perimeter(q))
                  /\ Near(m.centroid[1], Mean(q, 1)) /\ Near(m.centroid[2], Mean(q, 2))
                  /\ L!Signed2(q) /= 0 => m.side = L!Sgn(L!Signed2(q))
Close ==
  /\ Event("close")
  /\ LET a == L!CloseAnswer(vs, cl) IN
     CASE a = "ok" -> /\ E.res = "ok" /\ cl' = TRUE
                      /\ vs' = L!Closed(vs) /\ E.verts = vs' /\ Measured(E.m, vs')
       [] a = "flat" -> E.res /= "ok" /\ vs' = E.verts /\ UNCHANGED cl
       \* a failed attempt may have dropped a last vertex that was in line with its neighbours
       [] OTHER -> /\ E.res = "err" /\ vs' = E.verts /\ UNCHANGED cl
                   /\ IF E.verts = vs THEN TRUE ELSE Len(vs) >= 3 /\ E.verts = L!Popped(vs)
  /\ UNCHANGED <<pl, hs, fit>>
(* ---- judgements about a simple loop ---- *)
PointIn(q, p) == IF p[3] /= 0 THEN "out" ELSE IF L!Where(<<p[1], p[2]>>, q) = "out" THEN "out" ELSE "in"
Points == /\ Event("points") /\ Keep
          /\ L!Simple(vs) => \A k \in 1..Len(E.points) : E.points[k][4] = PointIn(vs, E.points[k])
Reversed == /\ Event("reversed") /\ Keep /\ E.verts = L!Rev(vs) /\ Measured(E.m, E.verts)
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>      \* loop vertices have even coordinates
Beside(a, b) == \E k \in L!Edges(vs) : {vs[k], L!Nxt(vs, k)} = {a, b}
\* Strictly: inside, touching nothing but its ends;  Never: a side, or crosses an edge, or runs outside
Strictly(a, b) == /\ ~Beside(a, b) /\ L!Where(Mid(a, b), vs) = "in"
                  /\ \A k \in L!Edges(vs) : LET c == vs[k]  d == L!Nxt(vs, k) IN
                       L!Meet(a, b, c, d) => {a, b} \cap {c, d} /= {} /\ ~\E x \in {c, d} : x \notin {a, b} /\ L!OnSeg(x, a, b)
Never(a, b) == Beside(a, b) \/ L!Where(Mid(a, b), vs) = "out" \/ \E k \in L!Edges(vs) : L!Crosses(a, b, vs[k], L!Nxt(vs, k))
Diagonals ==
  /\ Event("diagonals") /\ Keep
  /\ L!Simple(vs) =>
       /\ \A k \in 1..Len(E.diags) : LET d == E.diags[k] IN
            IF Strictly(vs[d[1]], vs[d[2]]) THEN d[3] = "yes" ELSE IF Never(vs[d[1]], vs[d[2]]) THEN d[3] = "no" ELSE d[3] \in {"yes", "no"}
       /\ {<<E.sides[k][1], E.sides[k][2]>> : k \in 1..Len(E.sides)} =
            {<<a, b>> \in (1..Len(vs)) \X (1..Len(vs)) : a /= b /\ Beside(vs[a], vs[b])}
\* a loop is the same from whatever vertex it starts and in whatever direction it goes
Equal == /\ Event("equal") /\ Keep
         /\ L!Simple(vs) => \A k \in 1..3 : E.answers[k] = IF E.same THEN "yes" ELSE "no"
Read == /\ Event("read") /\ Keep
        /\ L!Simple(vs) => /\ E.res = "ok" /\ Measured(E.m, E.verts)
                           /\ L!Area2(E.verts) = L!Area2(vs)
                           /\ L!Corners(vs) => E.verts = vs
(* ---- segments ---- *)
FOrient(a, b, p) == FSub(FMul(b[1] - a[1], FSub(p[2], a[2])), FMul(b[2] - a[2], FSub(p[1], a[1])))
OnLines(x, p) == FClose(FOrient(x.a, x.b, p), 0, 0, "1e-5") /\ FClose(FOrient(x.c, x.d, p), 0, 0, "1e-5")
Segment(x) ==
  LET o1 == L!Cross(x.a, x.b, x.c)  o2 == L!Cross(x.a, x.b, x.d)  o3 == L!Cross(x.c, x.d, x.a)  o4 == L!Cross(x.c, x.d, x.b)
      inT == L!Sgn(o1) * L!Sgn(o2)  inS == L!Sgn(o3) * L!Sgn(o4)     \* -1: the other line crosses it;  0: at an end
      never == x.off /= 0 \/ (o1 = o2 /\ o3 = o4) \/ inT = 1 \/ inS = 1
  IN /\ IF never THEN x.touches = "no" /\ x.crosses = "no"
        ELSE IF inT = -1 /\ inS = -1 THEN x.touches = "yes" /\ x.crosses = "yes" /\ OnLines(x, x.at) /\ OnLines(x, x.cat)
        \* exactly at an end: as far as it can be told
        ELSE /\ IF x.exact THEN x.touches = "yes" ELSE x.touches \in {"yes", "no"}
             /\ IF inT = 0 THEN x.crosses = "no" ELSE x.crosses \in {"yes", "no"}
     /\ x.contains = IF x.off = 0 /\ L!OnSeg(x.c, x.a, x.b) /\ L!OnSeg(x.d, x.a, x.b) THEN "yes" ELSE "no"
     /\ x.same[1] /\ x.same[2] /\ x.same[3] = (x.off = 0 /\ {x.a, x.b} = {x.c, x.d})
     /\ Near(x.length, FSqrt(L!D2(x.a, x.b)))
     /\ \A k \in 1..2 : FClose(x.mid[k], FDiv(x.a[k] + x.b[k], 2), 0, "1e-6")
Segments == /\ Event("segments") /\ Keep /\ IF \A k \in 1..Len(E.list) : Segment(E.list[k]) THEN TRUE ELSE FALSE
(* ---- polygons ---- *)
Net == FDiv(L!Net2(vs, hs), 2)
Poly == /\ Event("poly") /\ E.res = "ok" /\ vs' = E.path /\ cl' = TRUE /\ pl' = TRUE /\ hs' = <<>> /\ fit' = TRUE
        /\ Near(E.area, FDiv(L!Area2(vs'), 2)) /\ E.side = L!Sgn(L!Signed2(vs'))
Hole == /\ Event("hole")
        /\ IF ~fit THEN Keep
           ELSE IF L!Refused(vs, hs, E.path) THEN E.res = "err" /\ Near(E.area, Net) /\ E.holes = Len(hs) /\ Keep
           \* one that only touches, or reaches across a notch, is not judged, nor is what follows
           ELSE IF ~L!Fits(vs, hs, E.path) THEN fit' = (E.res /= "ok") /\ UNCHANGED <<vs, cl, pl, hs>>
           ELSE /\ E.res = "ok" /\ hs' = Append(hs, E.path) /\ E.holes = Len(hs')
                /\ Near(E.area, FDiv(L!Net2(vs, hs'), 2)) /\ UNCHANGED <<vs, cl, pl, fit>>
Tilted == /\ Event("tilted") /\ Keep
          /\ fit => E.res = "err" /\ Near(E.area, Net) /\ E.holes = Len(hs)
PolyIn(p) == IF p[3] /= 0 THEN "out" ELSE IF L!InPoly(<<p[1], p[2]>>, vs, hs) THEN "in" ELSE "out"
Inside == /\ Event("inside") /\ Keep
          /\ fit => \A k \in 1..Len(E.points) : E.points[k][4] = PolyIn(E.points[k])
Turned == /\ Event("turned") /\ Keep
          /\ fit => Near(E.area, Net) /\ E.side = -L!Sgn(L!Signed2(vs)) /\ E.outer = L!Rev(vs)
Joined == /\ Event("joined") /\ Keep
          /\ IF ~fit THEN TRUE ELSE IF L!Joinable(vs, hs) THEN E.res = "ok" /\ L!Around(E.path, vs, hs) ELSE TRUE
\* what is written is the joined loop: off its bridges, it has the same inside
OnEdge(p) == L!OnPath(<<p[1], p[2]>>, vs) \/ \E k \in 1..Len(hs) : L!OnPath(<<p[1], p[2]>>, hs[k])
Reread == /\ Event("reread") /\ Keep
          /\ IF ~fit THEN TRUE ELSE IF L!Joinable(vs, hs)
             THEN E.res = "ok" /\ Near(E.area, Net) /\ E.side = L!Sgn(L!Signed2(vs))
             ELSE TRUE
Done == i = Len(Trace) /\ UNCHANGED i /\ Keep
Next == Start \/ Push \/ Close \/ Points \/ Segments \/ Reversed \/ Diagonals \/ Equal \/ Read \/ Poly \/ Hole \/ Tilted \/ Inside \/ Turned \/ Joined \/ Reread \/ Done
Spec == Init /\ [][Next]_<<i, vs, cl, pl, hs, fit>>
==============================================================================
