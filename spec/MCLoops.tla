---- MODULE MCLoops ----
EXTENDS Loops
CONSTANTS W, H
G == (0..W) \X (0..H)
Sh(vs, x, y) == [k \in 1..Len(vs) |-> <<vs[k][1] + x, vs[k][2] + y>>]
Outs == { << <<0,0>>, <<6,0>>, <<6,5>>, <<0,5>> >>, << <<0,0>>, <<0,6>>, <<3,6>>, <<3,3>>, <<6,3>>, <<6,0>> >>,
          << <<0,0>>, <<7,1>>, <<3,7>> >>, << <<0,0>>, <<6,0>>, <<6,6>>, <<5,6>>, <<5,1>>, <<1,1>>, <<1,6>>, <<0,6>> >> }
Tri == << <<0,0>>, <<1,0>>, <<0,1>> >>
Sq == << <<0,0>>, <<0,1>>, <<1,1>>, <<1,0>> >>
Big == << <<0,0>>, <<2,0>>, <<1,2>> >>
Hs == {Sh(h, x, y) : h \in {Tri, Sq, Big}, x \in 1..4, y \in 1..4}
====
