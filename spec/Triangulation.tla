--------------------------- MODULE Triangulation ---------------------------
(* Triangulating polygons with holes (geometry/src/triangulation3d.rs): the path joined around the polygon and its holes loses one ear at a time.
   What light and rendering need of it is that the triangles cover the polygon exactly once. *)
EXTENDS Loops
VARIABLES rest,      \* the path that is left
          tris,      \* the triangles taken so far
          whole      \* the path to begin with
tvars == <<rest, tris, whole>>
Dir(path) == Sgn(Signed2(path))
InTri(p, t) == Where(p, t) /= "out"
\* t covers nothing outside the path and lies on the right side of its corner
Ear(path, k) ==
  LET p == Prv(path, k)  v == path[k]  q == Nxt(path, k) IN
  /\ Sgn(Cross(p, v, q)) = Dir(path)
  /\ \A j \in Edges(path) : /\ path[j] \notin {p, v, q} => ~InTri(path[j], <<p, v, q>>)
                            /\ ~Crosses(p, q, path[j], Nxt(path, j))
  \* a path that comes back to an end of the new side does not leave into the triangle
  /\ Len(path) > 3 => \A j \in Edges(path) : LET a == path[j]  b == Nxt(path, j) IN {a, b} /= {p, q}
Without(path, k) == SubSeq(path, 1, k - 1) \o SubSeq(path, k + 1, Len(path))
TInit == Init /\ rest = <<>> /\ tris = {} /\ whole = <<>>
Begin == /\ closed /\ clean /\ whole = <<>> /\ Simple(verts) /\ Joinable(verts, inner)
         /\ \E path \in AllJoins(verts, verts, {inner[k] : k \in 1..Len(inner)}) : rest' = path /\ whole' = path
         /\ UNCHANGED <<vars, tris>>
Clip == /\ Len(rest) >= 3
        /\ \E k \in Edges(rest) : /\ Ear(rest, k)
                                  /\ tris' = tris \cup {<<Prv(rest, k), rest[k], Nxt(rest, k)>>}
                                  /\ rest' = Without(rest, k)
        /\ UNCHANGED <<vars, whole>>
Working == whole /= <<>>
TNext == (~Working /\ Next /\ UNCHANGED tvars) \/ (~Working /\ Begin) \/ Clip
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
(* ---- what holds of the triangles of a polygon: used on the traces too ---- *)
RECURSIVE Area2Of(_)
Area2Of(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Area2(t) + Area2Of(S \ {t})
\* two triangles have interior points in common: a corner or side of one goes through the inside of the other
Separates(s, t) == \E k \in 1..3 : \A j \in 1..3 : Dir(s) * Cross(s[k], Nxt(s, k), t[j]) <= 0
Overlap(s, t) == ~Separates(s, t) /\ ~Separates(t, s)
\* the triangle is inside the polygon: no side of the polygon goes through it, and its centre is inside
Within(t, outer, hs) ==
  LET triple == [k \in 1..3 |-> <<3 * t[k][1], 3 * t[k][2]>>]
      c == << t[1][1] + t[2][1] + t[3][1], t[1][2] + t[2][2] + t[3][2] >>
      x3(l) == [k \in 1..Len(l) |-> <<3 * l[k][1], 3 * l[k][2]>>]
  IN /\ Where(c, x3(outer)) = "in" /\ \A k \in 1..Len(hs) : Where(c, x3(hs[k])) = "out"
     /\ \A l \in {outer} \cup {hs[k] : k \in 1..Len(hs)} : \A e \in Edges(l), j \in 1..3 : ~Crosses(t[j], Nxt(t, j), l[e], Nxt(l, e))
Exact(S, outer, hs) ==
  /\ \A t \in S : Dir(t) = Dir(outer) /\ Within(t, outer, hs)
  /\ \A s, t \in S : s /= t => ~Overlap(s, t)
  /\ Area2Of(S) = Net2(outer, hs)
(* ---- the model ---- *)
Conserved == Working => /\ Area2Of(tris) + Area2(rest) = Net2(verts, inner)
                        /\ \A t \in tris : Within(t, verts, inner) /\ Dir(t) = Dir(verts)
                        /\ \A s, t \in tris : s /= t => ~Overlap(s, t)
Covers == Working /\ Len(rest) < 3 => Exact(tris, verts, inner) /\ Cardinality(tris) = Len(whole) - 2
\* there is always an ear (what is left may have vertices in line)
NotStuck == Working /\ Len(rest) > 3 => \E k \in Edges(rest) : Ear(rest, k)
=============================================================================
