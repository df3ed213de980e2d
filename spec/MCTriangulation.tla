---- MODULE MCTriangulation ----
EXTENDS Triangulation
CONSTANTS W, H
G == (0..W) \X (0..H)
Sh(vs, x, y) == [k \in 1..Len(vs) |-> <<vs[k][1] + x, vs[k][2] + y>>]
Outs == { << <<0,0>>, <<4,0>>, <<4,3>>, <<0,3>> >>, << <<0,0>>, <<0,4>>, <<2,3>>, <<5,0>> >> }
Tri == << <<0,0>>, <<1,0>>, <<0,1>> >>
Sq == << <<0,0>>, <<0,1>>, <<1,1>>, <<1,0>> >>
Hs == {Sh(h, x, y) : h \in {Tri, Sq}, x \in 1..2, y \in 1..2}
\* two holes reached from the same vertex
Outs2 == { << <<0,0>>, <<12,0>>, <<0,12>> >> }
Hs2 == { << <<4,1>>, <<5,1>>, <<5,2>> >>, << <<1,4>>, <<2,5>>, <<1,5>> >> }
====
