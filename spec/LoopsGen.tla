---- MODULE LoopsGen ----
(* Behaviours of Loops: random loops built vertex by vertex on a lattice (mostly towards simple polygons), and polygons made of shapes with holes. *)
EXTENDS Loops, TLC, Json
CONSTANTS N, Steps, PolySteps
VARIABLES mode, hist
R(S) == RandomElement(S)
GridP == (0..N) \X (0..N)
(* shapes, in lattice units *)
Outers0 == << << <<0,0>>, <<10,0>>, <<10,8>>, <<0,8>> >>,
  << <<0,0>>, <<12,0>>, <<12,5>>, <<6,5>>, <<6,12>>, <<0,12>> >>,
  << <<0,0>>, <<12,0>>, <<12,10>>, <<9,10>>, <<9,4>>, <<4,4>>, <<4,10>>, <<0,10>> >>,
  << <<4,0>>, <<8,0>>, <<8,4>>, <<12,4>>, <<12,8>>, <<8,8>>, <<8,12>>, <<4,12>>, <<4,8>>, <<0,8>>, <<0,4>>, <<4,4>> >>,
  << <<3,0>>, <<9,0>>, <<12,5>>, <<9,10>>, <<3,10>>, <<0,5>> >>,
  << <<0,0>>, <<13,2>>, <<4,11>> >>,
  << <<0,0>>, <<12,5>>, <<0,10>>, <<4,5>> >>,
  << <<0,3>>, <<5,0>>, <<12,2>>, <<10,6>>, <<12,11>>, <<6,9>>, <<1,12>>, <<3,7>> >>,
  << <<0,0>>, <<3,0>>, <<3,7>>, <<5,7>>, <<5,0>>, <<8,0>>, <<8,7>>, <<10,7>>, <<10,0>>, <<13,0>>, <<13,10>>, <<0,10>> >> >>
Holes0 == << << <<0,0>>, <<1,0>>, <<1,1>>, <<0,1>> >>, << <<0,0>>, <<3,0>>, <<3,1>>, <<0,1>> >>,
  << <<0,0>>, <<2,0>>, <<0,2>> >>, << <<0,0>>, <<2,1>>, <<1,2>> >>,
  << <<0,0>>, <<2,0>>, <<3,1>>, <<1,3>>, <<0,2>> >>, << <<1,0>>, <<2,0>>, <<3,1>>, <<2,2>>, <<1,2>>, <<0,1>> >>,
  << <<0,0>>, <<2,0>>, <<2,1>>, <<1,1>>, <<1,2>>, <<0,2>> >>, << <<1,0>>, <<2,2>>, <<1,3>>, <<0,2>> >>,
  << <<0,0>>, <<4,0>>, <<4,4>>, <<0,4>> >>, << <<1,0>>, <<3,0>>, <<4,2>>, <<3,4>>, <<1,3>>, <<0,3>>, <<0,1>> >> >>
\* one of the eight ways to lay a shape, its first vertex and direction, then moved
Lay(h, p) == LET q == R(0..7) IN [k \in 1..Len(p) |-> LET x == p[k][1]  y == p[k][2]  a == IF q % 2 = 1 THEN <<y, x>> ELSE <<x, y>> IN
                      << IF (q \div 2) % 2 = 1 THEN -a[1] ELSE a[1], IF q \div 4 = 1 THEN -a[2] ELSE a[2] >>]
Low(p) == [k \in 1..Len(p) |-> <<p[k][1] - MinOf(Xs(p)), p[k][2] - MinOf(Ys(p))>>]
Turned(h, p) == LET a == Rot(p, R(0..(Len(p) - 1))) IN IF R(BOOLEAN) THEN Rev(a) ELSE a
Moved(p, x, y) == [k \in 1..Len(p) |-> <<p[k][1] + x, p[k][2] + y>>]
Shape(h, S) == Turned(h, Low(Lay(h, S[R(1..Len(S))])))

GInit == /\ Init /\ hist = <<>> /\ mode \in {"loop", "poly"}
Note(x) == hist' = Append(hist, x)
\* points that keep the loop simple
Good == {p \in GridP : p \notin Vs(verts) /\ PushAnswer(verts, closed, planar, p, 0) = "ok" /\ ~Touches(Pushed(verts, p, TRUE))}
GPush(p, off, merge) ==
  LET r == PushAnswer(verts, closed, planar, p, off) IN
  /\ Note([op |-> "push", p |-> p, off |-> off, merge |-> merge])
  /\ answer' = r
  /\ IF r = "ok" /\ off = 0 THEN LET vs == Pushed(verts, p, merge) IN verts' = vs /\ planar' = (planar \/ Fixes(vs)) ELSE UNCHANGED <<verts, planar>>
  /\ UNCHANGED <<closed, clean, inner>>
LoopStep ==
  /\ mode = "loop" /\ ~closed /\ Len(hist) < Steps
  /\ \E c \in {R(1..12)} :
     CASE c <= 7 -> \E g \in {Good} : IF g = {} THEN Close /\ Note([op |-> "close"]) ELSE \E p \in {R(g)} : GPush(p, 0, TRUE)
       [] c = 8 -> \E p \in {R(GridP)} : IF Len(verts) > 1 /\ p \in Vs(verts) THEN Close /\ Note([op |-> "close"]) ELSE GPush(p, 0, R(BOOLEAN))
       [] c = 9 -> IF Len(verts) > 0 THEN \E p \in {verts[Len(verts)]} : GPush(p, 0, TRUE) ELSE Close /\ Note([op |-> "close"])
       [] c = 10 -> \E p \in {R(GridP)} : IF planar THEN GPush(p, R({-1, 1, 2}), TRUE) ELSE Close /\ Note([op |-> "close"])
       [] c = 11 -> \E g \in {Good} : IF g = {} THEN Close /\ Note([op |-> "close"]) ELSE \E p \in {R(g)} : GPush(p, 0, FALSE)
       [] OTHER -> IF Len(verts) >= R(3..7) THEN Close /\ Note([op |-> "close"]) ELSE \E p \in {R(GridP)} : IF p \in Vs(verts) THEN Close /\ Note([op |-> "close"]) ELSE GPush(p, 0, TRUE)
  /\ UNCHANGED mode
PolyStep ==
  /\ mode = "poly" /\ Len(hist) < PolySteps
  /\ IF ~closed THEN \E o \in {Shape(hist, Outers0)} : Make(o) /\ Note([op |-> "poly", path |-> o])
     ELSE \E h0 \in {Shape(hist, Holes0)} : \E h \in {Moved(h0, R(0..11), R(0..11))} :
          /\ Note([op |-> "hole", path |-> h])
          /\ IF Refused(verts, inner, h) THEN UNCHANGED inner ELSE inner' = Append(inner, h)
          /\ UNCHANGED <<verts, closed, planar, clean, answer>>
  /\ UNCHANGED mode
GNext == LoopStep \/ PolyStep
GSpec == GInit /\ [][GNext]_<<vars, mode, hist>>
Complete == IF mode = "loop" THEN closed \/ Len(hist) = Steps ELSE Len(hist) = PolySteps
Emit == Complete => PrintT("SCN:" \o ToJson([mode |-> mode, ops |-> hist]))
====
