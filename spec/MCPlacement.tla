---- MODULE MCPlacement ----
EXTENDS Placement
M == {<<"turn", a, s>> : a \in 1..3, s \in {-1, 1}} \cup {<<"shift", a, n>> : a \in 1..3, n \in {-1, 2}} \cup {<<"mirror", a, 0>> : a \in 1..3}
P == {<<0,0,0>>, <<1,0,0>>, <<0,2,0>>, <<0,0,-1>>, <<3,1,2>>, <<1,1,1>>, <<-1,2,5>>}
B == { << <<0,0,0>>, <<1,1,1>> >>, << <<-1,0,2>>, <<3,3,2>> >>, << <<0,0,-2>>, <<3,1,5>> >> }
====
