----------------------------- MODULE LightPaths -----------------------------
(* Light that reaches the eye (rendering/src/ray_tracer.rs, material).  A path goes from surface to surface until it leaves the scene (the sky, a sun), reaches a
   light, or is stopped: by the limit of bounces or by lot, the one that goes on carrying the weight of those that do not.
   Lights are seen directly at surfaces which scatter, and by running into them from the eye or after a mirror.  Weights are fractions of 2^MaxLen. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt
CONSTANTS MaxLen, Depths, Rhos      \* Rhos: reflectances out of two
VARIABLES path, depth, specular, limit, mass, weight, counted, ended
vars == <<path, depth, specular, limit, mass, weight, counted, ended>>
Kinds == {"matt", "mirror"}
\* how many times each light path was added: the surfaces up to the light
Add(p) == counted' = Append(counted, p)
Init == path = <<>> /\ depth = 0 /\ specular = TRUE /\ limit \in Depths /\ mass = 2^MaxLen /\ weight = <<>> /\ counted = <<>> /\ ended = "no"
Live == ended = "no" /\ Len(path) < MaxLen
Arrive(k, rho) ==
  /\ Live
  /\ path' = Append(path, k)
  /\ IF k = "matt" THEN Add(Append(path', "light")) ELSE UNCHANGED counted
  /\ depth' = depth + 1
  /\ IF depth' > limit
     THEN ended' = "limit" /\ UNCHANGED <<mass, weight, specular>>
     ELSE /\ ended' = "no" /\ specular' = (k = "mirror")
          \* of the paths so far (mass, each carrying one), 2 - rho out of two are stopped
          /\ mass' = mass - (mass * (2 - rho)) \div 2 /\ weight' = Append(weight, rho)
  /\ UNCHANGED limit
Light == Live /\ (IF specular THEN Add(Append(path, "light")) ELSE UNCHANGED counted) /\ ended' = "light" /\ UNCHANGED <<path, depth, specular, limit, mass, weight>>
Sky == Live /\ ended' = "sky" /\ Add(Append(path, "sky")) /\ UNCHANGED <<path, depth, specular, limit, mass, weight>>
Next == (\E k \in Kinds, rho \in Rhos : Arrive(k, rho)) \/ Light \/ Sky
Spec == Init /\ [][Next]_vars
(* ---- what holds ---- *)
Count(p) == Cardinality({k \in 1..Len(counted) : counted[k] = p})
Prefixes == {SubSeq(path, 1, n) : n \in 0..Len(path)}
\* whatever can be seen along the path is added once: lights at matt surfaces, and at its end if that is from the eye or a mirror
Once == \A p \in Prefixes : Count(Append(p, "light")) <= 1
Matt == \A n \in 1..Len(path) : path[n] = "matt" => Count(Append(SubSeq(path, 1, n), "light")) = 1
Seen == ended = "light" => Count(Append(path, "light")) = 1
Outside == ended = "sky" => Count(Append(path, "sky")) = 1
Limit == depth <= limit + 1 /\ (ended \in {"sky", "light"} => Len(path) <= limit)
\* those that go on are as many as the product of the reflectances met
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
Whole == mass * 2^Len(weight) = 2^MaxLen * Product(weight)
(* ---- surfaces ---- *)
Dot(a, b) == FDot(a, b)
Times(a, k) == [j \in 1..3 |-> FMul(a[j], k)]
Plus(a, b) == [j \in 1..3 |-> FAdd(a[j], b[j])]
Minus(a, b) == [j \in 1..3 |-> FSub(a[j], b[j])]
Each(a, b) == [j \in 1..3 |-> FMul(a[j], b[j])]
Cross(a, b) == <<FSub(FMul(a[2], b[3]), FMul(a[3], b[2])), FSub(FMul(a[3], b[1]), FMul(a[1], b[3])), FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
Radiance(c) == FSum(<<FMul("0.265", c[1]), FMul("0.67", c[2]), FMul("0.065", c[3])>>)
One == <<F(1), F(1), F(1)>>
Sq(x) == FMul(x, x)
\* the direction a ray takes when it is reflected, and what it takes when it is refracted from n1 to n2 (n against the ray, both unit)
Mirrored(d, n) == Minus(d, Times(n, FMul(2, Dot(n, d))))
Cos2(c1, n1, n2) == FSub(1, FMul(Sq(FDiv(n1, n2)), FSub(1, Sq(c1))))      \* squared; negative if there is no refraction
Refracted(d, n, n1, n2) == LET r == FDiv(n1, n2)  c1 == FAbs(Dot(n, d))  c2 == FSqrt(Cos2(c1, n1, n2)) IN Plus(Times(d, r), Times(n, FSub(FMul(r, c1), c2)))
\* what unpolarised light is reflected (Fresnel), each polarisation
Te(c1, n1, c2, n2) == Sq(FDiv(FSub(FMul(n1, c1), FMul(n2, c2)), FAdd(FMul(n1, c1), FMul(n2, c2))))
Tm(c1, n1, c2, n2) == Sq(FDiv(FSub(FMul(n2, c1), FMul(n1, c2)), FAdd(FMul(n2, c1), FMul(n1, c2))))
Reflects(c1, n1, n2) == LET q == Cos2(c1, n1, n2) IN IF FLt(q, 0) THEN F(1) ELSE LET c2 == FSqrt(q) IN FDiv(FAdd(Te(c1, n1, c2, n2), Tm(c1, n1, c2, n2)), 2)
\* inside a solid of flat faces [n, o] (n outward, o on it), from p in direction d: the face that is met and how far, and by how much before the next
Ahead(faces, p, d) == {k \in 1..Len(faces) : FLt("1e-9", Dot(faces[k].n, d))}
Far(f, p, d) == FDiv(Dot(f.n, Minus(f.o, p)), Dot(f.n, d))
Meets(faces, p, d) ==
  LET ks == Ahead(faces, p, d)  k == CHOOSE k \in ks : \A j \in ks : FLe(Far(faces[k], p, d), Far(faces[j], p, d)) IN
  [k |-> k, t |-> Far(faces[k], p, d), clear |-> \A j \in ks : j = k \/ FLt(FAdd(Far(faces[k], p, d), "1e-3"), Far(faces[j], p, d))]
\* the ways out of it: each [d, share, clear], for so many times a face is met; what stays goes on
RECURSIVE Outs(_, _, _, _, _, _)
Outs(faces, index, p, d, share, more) ==
  IF more = 0 THEN <<>>
  ELSE LET m == Meets(faces, p, d)  f == faces[m.k]  in == Times(f.n, -1)  c == FAbs(Dot(f.n, d))  r == Reflects(c, index, 1)
           out == IF FEq(r, 1) THEN <<>> ELSE <<[d |-> Refracted(d, in, index, 1), share |-> FMul(share, FSub(1, r)), clear |-> m.clear]>> IN
       IF ~m.clear THEN <<[d |-> d, share |-> share, clear |-> FALSE]>>
       ELSE out \o Outs(faces, index, Plus(p, Times(d, m.t)), Mirrored(d, in), FMul(share, r), more - 1)
\* a pane whose faces reflect f and whose glass lets a through once: all the reflections between the faces
PaneT(f, a) == FDiv(FMul(Sq(FSub(1, f)), a), FSub(1, Sq(FMul(f, a))))
PaneR(f, a) == FAdd(f, FDiv(FMul(FMul(Sq(FSub(1, f)), Sq(a)), f), FSub(1, Sq(FMul(f, a)))))
Pane(c1, n, tn) ==
  LET c2 == FSqrt(Cos2(c1, 1, n))  e == Te(c1, 1, c2, n)  m == Tm(c1, 1, c2, n)  a == [j \in 1..3 |-> FPow(tn[j], FDiv(1, c2))] IN
  [r |-> [j \in 1..3 |-> FDiv(FAdd(PaneR(e, a[j]), PaneR(m, a[j])), 2)], t |-> [j \in 1..3 |-> FDiv(FAdd(PaneT(e, a[j]), PaneT(m, a[j])), 2)]]
\* the solid angle of a cone, and what a matt surface sends of a small light
Cone(half) == FMul(FMul(4, FPi), Sq(FSin(FDiv(half, 2))))
Sends(c, cos, omega, l) == LET k == FDiv(FMul(cos, omega), FPi) IN [j \in 1..3 |-> FMul(FMul(c[j], l[j]), k)]
=============================================================================
