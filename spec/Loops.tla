------------------------------- MODULE Loops -------------------------------
(* Loops and polygons with holes (geometry/src/loop3d.rs, polygon3d.rs).  A loop is built one vertex at a time in a plane of space; the
   vertices are lattice points of that plane, so that whether edges cross, whether points are inside and what the area is are all exact
   here.  The implementation works with floating-point points of an arbitrary plane: the traces of the conformance check say which lattice
   point each of its vertices is. *)
EXTENDS Lattice
CONSTANTS Grid,      \* the points that are pushed
          MaxLen,    \* no loop is longer
          Outers, Holes, MaxHoles   \* closed paths polygons are made from, and cut from them
VARIABLES verts,     \* the vertices so far
          closed,
          planar,    \* the loop's plane is fixed
          clean,     \* no edge so far touched an earlier one
          answer,    \* of the last operation
          inner      \* the holes of the polygon made from this loop
vars == <<verts, closed, planar, clean, answer, inner>>

(* ---- one vertex ---- *)
Fixes(vs) == Len(vs) >= 3 /\ \E k \in 3..Len(vs) : Cross(vs[1], vs[2], vs[k]) /= 0
\* the edge from the last vertex to p runs into an earlier edge
Blocked(vs, p) == Len(vs) >= 3 /\ \E k \in 1..(Len(vs) - 2) : Hits(vs[Len(vs)], p, vs[k], vs[k + 1])
PushAnswer(vs, cl, pl, p, off) ==
  IF cl THEN "err"
  ELSE IF pl /\ off /= 0 THEN "err"
  ELSE IF Len(vs) > 0 /\ p = vs[Len(vs)] THEN "same"
  ELSE IF Blocked(vs, p) THEN "err" ELSE "ok"
Straight(vs, p) == Len(vs) >= 2 /\ Cross(vs[Len(vs) - 1], vs[Len(vs)], p) = 0
\* a vertex in line with the last edge moves the end of that edge, unless vertices in line are asked for
Pushed(vs, p, merge) == IF merge /\ Straight(vs, p) THEN [vs EXCEPT ![Len(vs)] = p] ELSE Append(vs, p)
\* the last edge of vs touches an earlier one, other than by following it
Touches(vs) == LET n == Len(vs) IN
  n >= 2 /\ (\/ \E k \in 1..(n - 3) : Meet(vs[n - 1], vs[n], vs[k], vs[k + 1])
             \/ n >= 3 /\ (OnSeg(vs[n], vs[n - 2], vs[n - 1]) \/ OnSeg(vs[n - 2], vs[n - 1], vs[n]))
             \/ vs[n] = vs[n - 1])
Push(p, merge) ==
  LET r == PushAnswer(verts, closed, planar, p, 0)  vs == Pushed(verts, p, merge) IN
  /\ Len(verts) < MaxLen
  /\ answer' = r
  /\ IF r = "ok" THEN verts' = vs /\ planar' = (planar \/ Fixes(vs)) /\ clean' = (clean /\ ~Touches(vs))
     ELSE UNCHANGED <<verts, planar, clean>>
  /\ UNCHANGED <<closed, inner>>

(* ---- closing ---- *)
InLine(a, b, c) == Cross(a, b, c) = 0
Popped(vs) == IF InLine(vs[Len(vs) - 1], vs[Len(vs)], vs[1]) THEN SubSeq(vs, 1, Len(vs) - 1) ELSE vs
Beheaded(vs) == IF InLine(vs[Len(vs)], vs[1], vs[2]) THEN Tail(vs) ELSE vs
CloseAnswer(vs, cl) ==
  IF cl \/ Len(vs) < 3 THEN "err"
  ELSE LET q == Popped(vs) IN
       IF Len(q) < 3 THEN "flat"
       ELSE IF Blocked(q, q[1]) THEN "err" ELSE IF Len(Beheaded(q)) < 3 THEN "flat" ELSE "ok"
Closed(vs) == Beheaded(Popped(vs))
Close ==
  LET r == CloseAnswer(verts, closed) IN
  /\ answer' = r
  /\ IF r = "ok" THEN /\ verts' = Closed(verts)
                      /\ closed' = TRUE
                      /\ clean' = (clean /\ ~\E k \in 2..(Len(verts) - 2) : Meet(verts[Len(verts)], verts[1], verts[k], verts[k + 1])
                                         /\ ~OnSeg(verts[1], verts[Len(verts) - 1], verts[Len(verts)]) /\ ~OnSeg(verts[Len(verts)], verts[1], verts[2])
                                         /\ ~OnSeg(verts[Len(verts) - 1], verts[Len(verts)], verts[1]) /\ ~OnSeg(verts[2], verts[1], verts[Len(verts)]))
     ELSE UNCHANGED <<verts, closed, clean>>
  /\ UNCHANGED <<planar, inner>>

(* ---- holes ---- *)
InPoly(p, outer, hs) == Where(p, outer) /= "out" /\ \A k \in 1..Len(hs) : Where(p, hs[k]) = "out"
Refused(outer, hs, h) ==
  \/ \E k \in 1..Len(h) : ~InPoly(h[k], outer, hs)
  \/ \E j \in 1..Len(hs) : \E k \in 1..Len(hs[j]) : Where(hs[j][k], h) /= "out"
Apart(a, b) == \A j \in Edges(a), k \in Edges(b) : ~Meet(a[j], Nxt(a, j), b[k], Nxt(b, k))
\* the hole is inside the polygon and touches nothing
Fits(outer, hs, h) == /\ Simple(h) /\ Where(h[1], outer) = "in" /\ Apart(outer, h)
                      /\ \A k \in 1..Len(hs) : Apart(hs[k], h) /\ Where(h[1], hs[k]) = "out" /\ Where(hs[k][1], h) = "out"
RECURSIVE HolesArea2(_)
HolesArea2(hs) == IF hs = <<>> THEN 0 ELSE Area2(Head(hs)) + HolesArea2(Tail(hs))
Net2(outer, hs) == Area2(outer) - HolesArea2(hs)
Make(o) == /\ ~closed /\ verts = <<>>
           /\ verts' = o /\ closed' = TRUE /\ planar' = TRUE /\ answer' = "ok" /\ UNCHANGED <<clean, inner>>
Cut(h) == /\ closed /\ Len(inner) < MaxHoles /\ clean
          /\ IF Refused(verts, inner, h) THEN answer' = "err" /\ UNCHANGED inner
             ELSE answer' = "ok" /\ inner' = Append(inner, h)
          /\ clean' = (clean /\ (answer' = "ok" => Fits(verts, inner, h)))
          /\ UNCHANGED <<verts, closed, planar>>

(* ---- a single path around a polygon and its holes: each hole is joined where it is nearest ---- *)
Vs(l) == {l[k] : k \in 1..Len(l)}
Pairs(joined, rest) == {<<e, k, v>> : e \in joined, k \in rest, v \in UNION {Vs(inner[j]) : j \in rest}}
IsBridge(a, b, all) == \A l \in all : \A k \in Edges(l) :
   LET c == l[k]  d == Nxt(l, k) IN Meet(a, b, c, d) => /\ {a, b} \cap {c, d} /= {}
                                                        /\ ~\E x \in {c, d} : x \notin {a, b} /\ OnSeg(x, a, b)
                                                        /\ ~\E x \in {a, b} : x \notin {c, d} /\ OnSeg(x, c, d)
\* whatever nearest pair is taken, the bridges touch nothing
RECURSIVE SafeJoin(_, _, _)
SafeJoin(done, rest, all) ==
  IF rest = {} THEN TRUE ELSE
  LET es == UNION {Vs(l) : l \in done}  vs == UNION {Vs(l) : l \in rest}
      d == MinOf({D2(e, v) : e \in es, v \in vs})
  IN \A l \in rest : \A e \in es, v \in Vs(l) : D2(e, v) = d => IsBridge(e, v, all) /\ SafeJoin(done \cup {l}, rest \ {l}, all)
Joinable(outer, hs) == LET r == {hs[k] : k \in 1..Len(hs)} IN SafeJoin({outer}, r, {outer} \cup r)
\* the join: hole h entered at its i-th vertex from the k-th vertex of the path, against the direction of the outer loop
Against(outer, h) == IF Signed2(outer) * Signed2(h) > 0 THEN Rev(h) ELSE h
Spliced(path, k, h, v) == LET g == Rot(h, v - 1) IN SubSeq(path, 1, k) \o g \o <<g[1], path[k]>> \o SubSeq(path, k + 1, Len(path))
\* from its k-th vertex, the inside of the path opens towards v.  A vertex may be on the path more than once: its copies share the directions out
Opens(path, k, v) ==
  LET e == path[k]  p == Prv(path, k)  q == Nxt(path, k)  d == Sgn(Signed2(path))  left(a, b) == d * Cross(e, a, b) > 0 IN
  IF d * Cross(e, q, p) > 0 THEN left(q, v) /\ left(v, p) ELSE left(q, v) \/ left(v, p)
Joins(path, outer, hs) ==
  LET d == MinOf({D2(e, v) : e \in Vs(path), v \in UNION {Vs(h) : h \in hs}}) IN
  {<<Spliced(path, k, Against(outer, h), v), hs \ {h}>> :
     <<k, h, v>> \in {<<k, h, v>> \in (1..Len(path)) \X hs \X (1..MaxOf({Len(h) : h \in hs})) :
        v <= Len(h) /\ D2(path[k], Against(outer, h)[v]) = d /\ Opens(path, k, Against(outer, h)[v])}}
\* where the path comes back to a vertex, it does not cross itself: the inside of one visit has no side of the other
Nested(path) == \A j, k \in 1..Len(path) : j /= k /\ path[j] = path[k] => ~Opens(path, j, Prv(path, k)) /\ ~Opens(path, j, Nxt(path, k))
\* a path goes around a polygon: each edge of each loop once, the outer ones forward, the holes against it, and the bridges twice
Step(l, k) == <<l[k], Nxt(l, k)>>
Times(path, s) == Cardinality({k \in 1..Len(path) : Step(path, k) = s})
RECURSIVE LenSum(_)
LenSum(hs) == IF hs = <<>> THEN 0 ELSE Len(Head(hs)) + 2 + LenSum(Tail(hs))
Around(path, outer, hs) ==
  LET loops == <<outer>> \o [k \in 1..Len(hs) |-> Against(outer, hs[k])]
      sides == UNION {{Step(l, k) : k \in 1..Len(l)} : l \in {loops[j] : j \in 1..Len(loops)}}
  IN /\ Len(path) = Len(outer) + LenSum(hs)
     /\ \A s \in sides : Times(path, s) = 1
     /\ \A k \in 1..Len(path) : Step(path, k) \notin sides => Times(path, Step(path, k)) = 1 /\ Times(path, <<Step(path, k)[2], Step(path, k)[1]>>) = 1
     /\ Signed2(path) = Sgn(Signed2(outer)) * Net2(outer, hs)
     /\ Nested(path)

Init == verts = <<>> /\ closed = FALSE /\ planar = FALSE /\ clean = TRUE /\ answer = "" /\ inner = <<>>
Next == (\E p \in Grid, m \in BOOLEAN : Push(p, m)) \/ Close \/ (\E o \in Outers : Make(o)) \/ (\E h \in Holes : Cut(h))
Spec == Init /\ [][Next]_vars

(* ---- what holds ---- *)
Box(vs) == (MinOf(Xs(vs))..MaxOf(Xs(vs))) \X (MinOf(Ys(vs))..MaxOf(Ys(vs)))
\* a loop none of whose edges touched an earlier one is a simple polygon
CleanIsSimple == closed /\ clean => Simple(verts)
\* the point test and the area agree (Pick's theorem), whatever vertex the loop starts at and in whatever direction
Pick == closed /\ Simple(verts) /\ inner = <<>> =>
  LET i == Cardinality({p \in Box(verts) : Where(p, verts) = "in"})  b == Cardinality({p \in Box(verts) : Where(p, verts) = "on"}) IN
  Area2(verts) = 2 * i + b - 2
SameReversed == closed => Area2(Rev(verts)) = Area2(verts) /\ Signed2(Rev(verts)) = -Signed2(verts) /\ Signed2(Rot(verts, 1)) = Signed2(verts)
\* an edge that crosses an earlier one is never accepted
NeverCrosses == ~\E j, k \in 1..(Len(verts) - 1) : j + 1 < k /\ Crosses(verts[j], verts[j + 1], verts[k], verts[k + 1])
\* holes that fit only take their own area and points away; the joined path goes around what is left
Net == closed /\ clean => /\ Net2(verts, inner) > 0
                          /\ \A p \in Box(verts) : Cardinality({k \in 1..Len(inner) : Where(p, inner[k]) /= "out"}) <= 1
RECURSIVE AllJoins(_, _, _)
AllJoins(path, outer, hs) == IF hs = {} THEN {path} ELSE UNION {AllJoins(j[1], outer, j[2]) : j \in Joins(path, outer, hs)}
Joined == closed /\ clean /\ inner /= <<>> /\ Joinable(verts, inner) => \A path \in AllJoins(verts, verts, {inner[k] : k \in 1..Len(inner)}) : Around(path, verts, inner)
Settled == [][closed => closed' /\ verts' = verts]_vars
=============================================================================
