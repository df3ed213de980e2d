-------------------------------- MODULE Bvh --------------------------------
(* Casting rays in a scene (rendering/src/bvh.rs, scene.rs): the primitives are reordered into a tree of boxes, written down as an array of nodes,
   and a ray walks that array with a stack.  However the tree is split, the walk has to find what the ray hits first.  The primitives are boxes of a
   plane lattice, at even coordinates; rays start at odd ones and go along axes or diagonals, so that distances are exact. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Boxes,     \* the primitives scenes are made of: <<x0, y0, x1, y1>>
          Rays,      \* <<ox, oy, dx, dy>>
          Sizes,     \* how many primitives
          MaxLeaf    \* the most a leaf has, unless its primitives share a centre
VARIABLES prims,     \* the scene: a sequence of boxes
          order,     \* the new place of each primitive: order[k] is the original index
          todo,      \* ranges to split: <<from, to, parent to patch>>
          nodes,     \* [box, n, next, axis]: leaves have n > 0 and start at primitive next; the first child of other nodes follows, next is the second
          phase, ray, limit,
          cur, stack, best, seen
vars == <<prims, order, todo, nodes, phase, ray, limit, cur, stack, best, seen>>
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
None == 9999
Union(a, b) == << Mn(a[1], b[1]), Mn(a[2], b[2]), Mx(a[3], b[3]), Mx(a[4], b[4]) >>
RECURSIVE BoxOf(_, _, _)
BoxOf(o, f, t) == IF f = t THEN prims[o[f]] ELSE Union(prims[o[f]], BoxOf(o, f + 1, t))
Mid(b, axis) == b[axis] + b[axis + 2]
\* when a ray enters and leaves the stretch [lo, hi]
In(o, d, lo, hi) == IF d = 0 THEN IF lo <= o /\ o <= hi THEN -None ELSE None ELSE IF d > 0 THEN lo - o ELSE o - hi
Out(o, d, lo, hi) == IF d = 0 THEN IF lo <= o /\ o <= hi THEN None ELSE -None ELSE IF d > 0 THEN hi - o ELSE o - lo
\* the distance to a box, None when it is missed
Dist(b) == LET i == Mx(In(ray[1], ray[3], b[1], b[3]), In(ray[2], ray[4], b[2], b[4]))
               o == Mn(Out(ray[1], ray[3], b[1], b[3]), Out(ray[2], ray[4], b[2], b[4]))
           IN IF o >= 0 /\ i <= o THEN Mx(i, 0) ELSE None
Min(S) == CHOOSE m \in S : \A x \in S : m <= x

Init == /\ prims = <<>> /\ order = <<>> /\ todo = <<>> /\ nodes = <<>> /\ phase = "start" /\ ray = <<>> /\ limit = 0
        /\ cur = 0 /\ stack = <<>> /\ best = <<None, 0>> /\ seen = {}
Load == /\ phase = "start"
        /\ \E n \in Sizes : \E p \in [1..n -> Boxes] : prims' = p /\ order' = [k \in 1..n |-> k] /\ todo' = <<<<1, n, 0>>>>
        /\ phase' = "build" /\ UNCHANGED <<nodes, ray, limit, cur, stack, best, seen>>
\* the order of a range after sorting by the centre along an axis: ties either way
Sorted(o, f, t, axis, q) == /\ \A k \in 1..Len(o) : k < f \/ k > t => q[k] = o[k]
                            /\ {q[k] : k \in f..t} = {o[k] : k \in f..t}
                            /\ \A k \in f..(t - 1) : Mid(prims[q[k]], axis) <= Mid(prims[q[k + 1]], axis)
Spread(o, f, t, axis) == \E j, k \in f..t : Mid(prims[o[j]], axis) /= Mid(prims[o[k]], axis)
Patched(p) == IF p = 0 THEN nodes ELSE [nodes EXCEPT ![p].next = Len(nodes) + 1]
Split ==
  /\ phase = "build" /\ todo /= <<>>
  /\ LET f == Head(todo)[1]  t == Head(todo)[2]  p == Head(todo)[3] IN
     \/ /\ t - f < MaxLeaf \/ ~\E axis \in 1..2 : Spread(order, f, t, axis)
        /\ nodes' = Append(Patched(p), [box |-> BoxOf(order, f, t), n |-> t - f + 1, next |-> f, axis |-> 1])
        /\ todo' = Tail(todo) /\ UNCHANGED order
     \/ /\ t > f
        /\ \E axis \in {a \in 1..2 : Spread(order, f, t, a)} : \E q \in [1..Len(order) -> 1..Len(order)] : \E m \in f..(t - 1) :
             /\ Sorted(order, f, t, axis, q)
             /\ order' = q
             /\ nodes' = Append(Patched(p), [box |-> BoxOf(order, f, t), n |-> 0, next |-> 0, axis |-> axis])
             /\ todo' = <<<<f, m, 0>>, <<m + 1, t, Len(nodes) + 1>>>> \o Tail(todo)
  /\ UNCHANGED <<prims, phase, ray, limit, cur, stack, best, seen>>
Cast == /\ \/ phase = "build" /\ todo = <<>>
           \/ phase = "done"
        /\ \E r \in Rays, l \in {None, 5} : ray' = r /\ limit' = l
        /\ phase' = "walk" /\ cur' = 1 /\ stack' = <<>> /\ best' = <<None, 0>> /\ seen' = {}
        /\ UNCHANGED <<prims, order, todo, nodes>>
Pop == IF stack = <<>> THEN phase' = "done" /\ UNCHANGED <<cur, stack>> ELSE cur' = stack[Len(stack)] /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED phase
Backwards(axis) == ray[axis + 2] < 0
Visit ==
  /\ phase = "walk"
  /\ seen' = seen \cup {cur}
  /\ LET n == nodes[cur] IN
     IF Dist(n.box) = None THEN Pop /\ UNCHANGED best
     ELSE IF n.n > 0
     THEN LET ds == {<<Dist(prims[order[k]]), k>> : k \in n.next..(n.next + n.n - 1)}
              d == Min({x[1] : x \in ds})
          IN /\ best' = IF d < best[1] THEN <<d, CHOOSE k \in n.next..(n.next + n.n - 1) : <<d, k>> \in ds>> ELSE best
             \* asked only whether the way is free up to a distance, the walk ends at the first obstruction
             /\ IF limit < None /\ d < limit THEN phase' = "done" /\ UNCHANGED <<cur, stack>> ELSE Pop
     ELSE /\ IF Backwards(n.axis) THEN cur' = n.next /\ stack' = Append(stack, cur + 1) ELSE cur' = cur + 1 /\ stack' = Append(stack, n.next)
          /\ UNCHANGED <<phase, best>>
  /\ UNCHANGED <<prims, order, todo, nodes, ray, limit>>
Next == Load \/ Split \/ Cast \/ Visit
Spec == Init /\ [][Next]_vars

(* ---- what holds ---- *)
Built == phase \in {"walk", "done"}
Leaves == {k \in 1..Len(nodes) : nodes[k].n > 0}
\* nothing is lost and nothing is there twice
Permutation == \A j, k \in 1..Len(order) : j /= k => order[j] /= order[k]
Partition == Built => \A k \in 1..Len(prims) : Cardinality({l \in Leaves : nodes[l].next <= k /\ k < nodes[l].next + nodes[l].n}) = 1
Inside(a, b) == b[1] <= a[1] /\ b[2] <= a[2] /\ a[3] <= b[3] /\ a[4] <= b[4]
Nested == Built => \A k \in 1..Len(nodes) :
   IF nodes[k].n > 0 THEN \A j \in nodes[k].next..(nodes[k].next + nodes[k].n - 1) : Inside(prims[order[j]], nodes[k].box)
   ELSE nodes[k].next > k + 1 /\ nodes[k].next <= Len(nodes) /\ Inside(nodes[k + 1].box, nodes[k].box) /\ Inside(nodes[nodes[k].next].box, nodes[k].box)
\* the first thing in the way, whatever the tree
Brute == Min({Dist(prims[k]) : k \in 1..Len(prims)})
First == phase = "done" /\ limit = None => best[1] = Brute /\ (Brute < None => Dist(prims[order[best[2]]]) = Brute)
Free == phase = "done" /\ limit < None => ((best[1] < limit) <=> (Brute < limit))
Once == phase = "walk" => cur \notin seen /\ \A k \in 1..Len(stack) : stack[k] \notin seen
Shallow == phase = "walk" => Len(stack) < Len(prims)
=============================================================================
